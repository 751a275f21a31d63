------------------------------ MODULE MergeModel ------------------------------
(* Merging a second mesh into a mesh, with the seam-tying algorithm MeshiPhi  *)
(* uses: drop the cells inside the second mesh's region and every reference   *)
(* to them, take over the second mesh's cells and lists, then classify, side  *)
(* by side, the cells around the region against the edge cells of the second  *)
(* mesh.  Checked: the result is the set difference/union, and the graph that *)
(* this procedure produces equals geometric adjacency - for every placement   *)
(* of the region (inside, overlapping the rim, outside, across the            *)
(* antimeridian) and every refinement of both meshes within the bounds.       *)
EXTENDS MeshModel, Json
CONSTANTS MaxPre,         \* splits before merging, both meshes together
          MinI, MaxI,     \* placements: column offset MinI-9 .. MaxI-9 ...
          MinJ, MaxJ,     \* ... row offset
          MaxNX, MaxNY    \* ... and size of the second region, in cells of the first

VARIABLES reg,     \* region of the second mesh, or <<>>
          cells2, graph2, merged, hist1, hist2
mvars == <<cells, graph, nops, reg, cells2, graph2, merged, hist1, hist2>>

MInit == /\ Init /\ reg = <<>> /\ cells2 = {} /\ graph2 = <<>> /\ merged = FALSE
         /\ hist1 = <<>> /\ hist2 = <<>>

Split1 == /\ ~merged /\ reg = <<>> /\ nops < MaxPre
          /\ \E c \in cells : Split(c) /\ hist1' = Append(hist1, <<c.x, c.y, c.w, c.h>>)
          /\ UNCHANGED <<reg, cells2, graph2, merged, hist2>>

Place == /\ ~merged /\ reg = <<>>
         /\ \E i \in MinI .. MaxI, j \in MinJ .. MaxJ, nx \in 1 .. MaxNX, ny \in 1 .. MaxNY :
              LET b2 == [x |-> Norm(Base.x + (i - 9) * CW, CIRC), y |-> Base.y + (j - 9) * CH,
                         w |-> CW, h |-> CH, nx |-> nx, ny |-> ny]
              IN  /\ nx * CW <= CIRC
                  /\ (nx * CW = CIRC => b2.x = -(CIRC \div 2))     \* a global band starts at -180
                  /\ reg' = b2
                  /\ cells2' = InitialCells(b2, CIRC)
                  /\ graph2' = GeoGraph(InitialCells(b2, CIRC))
         /\ UNCHANGED <<cells, graph, nops, merged, hist1, hist2>>

Split2 == /\ ~merged /\ reg # <<>> /\ nops < MaxPre
          /\ \E c \in cells2 :
               /\ c.w % 2 = 0 /\ c.h % 2 = 0 /\ c.w * 2 > CW
               /\ cells2' = (cells2 \ {c}) \cup Quarters(c, CIRC)
               /\ graph2' = SplitGraph(graph2, c)
               /\ hist2' = Append(hist2, <<c.x, c.y, c.w, c.h>>)
          /\ nops' = nops + 1
          /\ UNCHANGED <<cells, graph, reg, merged, hist1>>

\* ---- the seam --------------------------------------------------------------
RegRect(b) == R(b.x, b.y, b.nx * b.w, b.ny * b.h)
InReg(c, b) == InRegion(c, b, CIRC)
Off(c, b) == (c.x - b.x) % CIRC
NearX(c, b) == Off(c, b) <= b.nx * b.w \/ Off(c, b) + c.w >= CIRC
RowIn(c, b) == c.y >= b.y /\ c.y + c.h <= b.y + b.ny * b.h
Top(b) == b.y + b.ny * b.h
NorthExt(S, b) == {c \in S : c.y = Top(b) /\ NearX(c, b)}
SouthExt(S, b) == {c \in S : c.y + c.h = b.y /\ NearX(c, b)}
EastExt(S, b)  == {c \in S : Off(c, b) = b.nx * b.w /\ RowIn(c, b)}
WestExt(S, b)  == {c \in S : Off(c, b) >= b.nx * b.w /\ Off(c, b) + c.w = CIRC /\ RowIn(c, b)}
NorthInt(S, b) == {c \in S : c.y + c.h = Top(b)}
SouthInt(S, b) == {c \in S : c.y = b.y}
EastInt(S, b)  == {c \in S : (c.x + c.w - (b.x + b.nx * b.w)) % CIRC = 0}
WestInt(S, b)  == {c \in S : (c.x - b.x) % CIRC = 0}

Tie(g, ext, int, dirsExt, dirsInt) ==
    [c \in DOMAIN g |-> [d \in DirCodes |->
        g[c][d] \cup (IF c \in ext /\ d \in dirsExt THEN {s \in int : Case1(c, s) = d} ELSE {})
                \cup (IF c \in int /\ d \in dirsInt THEN {l \in ext : Case1(c, l) = d} ELSE {})]]

Merge ==
    /\ ~merged /\ reg # <<>>
    /\ LET gone == {c \in cells : InReg(c, reg)}
           rest == cells \ gone
           S == rest \cup cells2
           g0 == [c \in S |-> IF c \in cells2 THEN graph2[c]
                              ELSE [d \in DirCodes |-> graph[c][d] \ gone]]
           g1 == Tie(g0, NorthExt(S, reg), NorthInt(cells2, reg), {4, -1, 3}, {-4, -3, 1})
           g2 == Tie(g1, SouthExt(S, reg), SouthInt(cells2, reg), {-4, -3, 1}, {4, -1, 3})
           g3 == Tie(g2, EastExt(S, reg),  EastInt(cells2, reg),  {-2, -1, -3}, {2, 3, 1})
           g4 == Tie(g3, WestExt(S, reg),  WestInt(cells2, reg),  {2, 3, 1}, {-2, -1, -3})
       IN  cells' = S /\ graph' = g4
    /\ merged' = TRUE
    /\ UNCHANGED <<nops, reg, cells2, graph2, hist1, hist2>>

MNext == Split1 \/ Place \/ Split2 \/ Merge
MSpec == MInit /\ [][MNext]_mvars

MGraphExact == graph = GeoGraph(cells)
MNoOverlap == \A a, b \in cells : a # b => ~Overlap(a, b, CIRC)
MReplaced == merged => /\ {c \in cells : InReg(c, reg)} = cells2
                       /\ MapThenSumSet(Area, cells2) = RegionArea(reg)
MEmit == merged => PrintT(<<"HIST", ToJson([h1 |-> hist1, h2 |-> hist2,
                        reg |-> <<reg.x, reg.y, reg.w, reg.h, reg.nx, reg.ny>>])>>)
=============================================================================
