------------------------------ MODULE MeshModel ------------------------------
(* State machine of mesh refinement with the *incremental* neighbour-graph    *)
(* maintenance MeshiPhi uses (children take over the parent's lists, edge     *)
(* neighbours are re-classified, corner neighbours are overwritten).          *)
(* A cell is identified with its rectangle; the implementation's numeric ids  *)
(* are bound in MeshTrace.                                                    *)
(*                                                                            *)
(* Checked: whatever the order of splits, the cells tile the region, and the  *)
(* incrementally maintained graph equals the geometric adjacency relation.    *)
EXTENDS Geo, TLC, FiniteSetsExt, SequencesExt
CONSTANTS X0, Y0, CW, CH, NX, NY, CIRC, MaxDepth, MaxOps,
          YBIAS   \* configuration files have no negative numbers: latitude = Y0 - YBIAS

Base == [x |-> Norm(X0, CIRC), y |-> Y0 - YBIAS, w |-> CW, h |-> CH, nx |-> NX, ny |-> NY]
Wraps == NX * CW = CIRC

VARIABLES cells,   \* set of rects currently in the mesh
          graph,   \* [cell -> [dir -> SUBSET cells]]
          nops
vars == <<cells, graph, nops>>

Order == <<1, 2, 3, 4, -1, -2, -3, -4>>
\* single-valued classification used by the implementation (first match wins)
Case1(a, b) ==
    LET D == Dirs(a, b, CIRC)
        is == {i \in 1 .. 8 : Order[i] \in D}
    IN  IF is = {} THEN 0 ELSE Order[Min(is)]

GeoGraph(S) == [a \in S |-> [d \in DirCodes |-> {b \in S : d \in Dirs(a, b, CIRC)}]]

Init == /\ cells = InitialCells(Base, CIRC)
        /\ graph = GeoGraph(InitialCells(Base, CIRC))
        /\ nops = 0

Child(c, g) ==
    LET nw == NWq(c) ne == NEq(c, CIRC) sw == SWq(c) se == SEq(c, CIRC)
        Nn == g[c][-4] Ss == g[c][4] Ee == g[c][2] Ww == g[c][-2]
        pick(from, me, d) == {i \in from : Case1(me, i) = d}
    IN  (sw :> [d \in DirCodes |->
            CASE d = 1 -> {ne} [] d = 2 -> {se} [] d = -4 -> {nw} [] d = -1 -> g[c][-1]
              [] d = 3 -> pick(Ss, sw, 3) [] d = 4 -> pick(Ss, sw, 4)
              [] d = -2 -> pick(Ww, sw, -2) [] d = -3 -> pick(Ww, sw, -3)])
     @@ (nw :> [d \in DirCodes |->
            CASE d = 2 -> {ne} [] d = 3 -> {se} [] d = 4 -> {sw} [] d = -3 -> g[c][-3]
              [] d = -4 -> pick(Nn, nw, -4) [] d = 1 -> pick(Nn, nw, 1)
              [] d = -2 -> pick(Ww, nw, -2) [] d = -1 -> pick(Ww, nw, -1)])
     @@ (ne :> [d \in DirCodes |->
            CASE d = 4 -> {se} [] d = -1 -> {sw} [] d = -2 -> {nw} [] d = 1 -> g[c][1]
              [] d = -4 -> pick(Nn, ne, -4) [] d = -3 -> pick(Nn, ne, -3)
              [] d = 2 -> pick(Ee, ne, 2) [] d = 3 -> pick(Ee, ne, 3)])
     @@ (se :> [d \in DirCodes |->
            CASE d = -2 -> {sw} [] d = -3 -> {nw} [] d = -4 -> {ne} [] d = 3 -> g[c][3]
              [] d = 4 -> pick(Ss, se, 4) [] d = -1 -> pick(Ss, se, -1)
              [] d = 2 -> pick(Ee, se, 2) [] d = 1 -> pick(Ee, se, 1)])

\* edge neighbours on side d: drop c, add the two children on that side
EdgeUpdate(g, c, d, ks) ==
    [i \in DOMAIN g |->
        IF i \in g[c][d] /\ i # c
        THEN [e \in DirCodes |->
               (g[i][e] \ (IF e = -d THEN {c} ELSE {}))
               \cup {k \in ks : Case1(i, k) = e}]
        ELSE g[i]]
CornerUpdate(g, c, d, k) ==
    [i \in DOMAIN g |-> IF i \in g[c][d] THEN [g[i] EXCEPT ![-d] = {k}] ELSE g[i]]

SplitGraph(g, c) ==
    LET nw == NWq(c) ne == NEq(c, CIRC) sw == SWq(c) se == SEq(c, CIRC)
        kids == Child(c, g)
        g1 == EdgeUpdate(g,  c, -4, {nw, ne})
        g2 == EdgeUpdate(g1, c,  2, {ne, se})
        g3 == EdgeUpdate(g2, c,  4, {sw, se})
        g4 == EdgeUpdate(g3, c, -2, {nw, sw})
        g5 == CornerUpdate(g4, c, 1, ne)
        g6 == CornerUpdate(g5, c, -3, nw)
        g7 == CornerUpdate(g6, c, 3, se)
        g8 == CornerUpdate(g7, c, -1, sw)
    IN  kids @@ [i \in (DOMAIN g8) \ {c} |-> g8[i]]

Split(c) ==
    /\ nops < MaxOps
    /\ DepthOf(c, Base, CIRC, MaxDepth) < MaxDepth
    /\ cells' = (cells \ {c}) \cup Quarters(c, CIRC)
    /\ graph' = SplitGraph(graph, c)
    /\ nops' = nops + 1

Next == \E c \in cells : Split(c)
Spec == Init /\ [][Next]_vars

\* ------------------------------ properties ---------------------------------
TypeOK == DOMAIN graph = cells
Tiling == /\ Tiles(cells, Base, CIRC)
          /\ MapThenSumSet(Area, cells) = RegionArea(Base)
DepthBound == \A c \in cells : DepthOf(c, Base, CIRC, MaxDepth) \in 0 .. MaxDepth
GraphExact == graph = GeoGraph(cells)
Symmetric == \A a \in cells : \A d \in DirCodes : \A b \in graph[a][d] :
                a \in graph[b][-d]
CornerUnique == \A a \in cells : \A d \in {1, 3, -1, -3} : Cardinality(graph[a][d]) <= 1
\* the order of splits is irrelevant: the state is a function of the cell set
View == <<cells, graph>>
=============================================================================
