------------------------------- MODULE KvBatch -------------------------------
EXTENDS PossumKv
cKeys == {<<97>>, <<98>>, <<99>>}
cPfx == {<<>>}
cMoves == cKeys \X cKeys
cLimits == {-1}
===============================================================================
