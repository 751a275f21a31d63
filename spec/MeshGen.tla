------------------------------- MODULE MeshGen -------------------------------
(* MeshModel with the history of splits as a variable: TLC enumerates every   *)
(* ordered sequence of MaxOps splits and prints it.  The printed behaviours   *)
(* are replayed into the real code (harness/mesh.py).                         *)
EXTENDS MeshModel, Json
VARIABLE hist
GenInit == Init /\ hist = <<>>
GenNext == \E c \in cells : Split(c) /\ hist' = Append(hist, <<c.x, c.y, c.w, c.h>>)
GenSpec == GenInit /\ [][GenNext]_<<cells, graph, nops, hist>>
Emit == (nops = MaxOps \/ \A c \in cells : DepthOf(c, Base, CIRC, MaxDepth) = MaxDepth)
           => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
