------------------------------- MODULE KvMove -------------------------------
EXTENDS PossumKv
a == 97
f == 255
cKeys == {<<>>, <<a>>, <<f>>, <<a, a>>, <<a, f>>, <<f, a>>, <<f, f>>}
cPfx == {}
cMoves == cKeys \X cKeys
cLimits == {-1}
===============================================================================
