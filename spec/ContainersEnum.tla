--------------------------- MODULE ContainersEnum ----------------------------
\* Prints the histories of Containers, to be replayed on real containers.
EXTENDS Containers, Json
Emit == Len(hist) = MaxOps => PrintT("HIST " \o ToJson(hist))
=============================================================================
