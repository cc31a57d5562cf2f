------------------------------- MODULE KvPrefix -------------------------------
EXTENDS PossumKv
a == 97
cKeys == {<<>>, <<a>>, <<a, 0>>, <<a, 255>>, <<a, 255, 255>>, <<98>>, <<255>>, <<255, 255>>}
cPfx == cKeys \cup {<<0>>, <<a, 254>>, <<a, 255, 255, 255>>}
cMoves == {}
cLimits == {-1}
===============================================================================
