------------------------------ MODULE MeshTrace ------------------------------
(* Trace specification of everything that changes or queries a mesh: building *)
(* the initial grid, quartering a cell (while building / in a loaded mesh),   *)
(* splitting around points, merging a second mesh, querying points.           *)
(*                                                                            *)
(* A trace is a sequence of observed states of the real program.  Each step   *)
(* is judged: the specification's action is applied to the previous *observed*)
(* state and must explain the observed one, and the invariants of MeshModel   *)
(* (tiling, depth, exact neighbour graph, symmetry) are evaluated on it.      *)
(* Verdicts are total: a step is never blocked, failing clauses are reported. *)
(*                                                                            *)
(* Observed state: cells  sequence of [x,y,w,h] (lattice ints)                *)
(*                 ids    their ids        vals  their values (opaque ints)   *)
(*                 graph  per cell the 8 neighbour lists, as indices into     *)
(*                        cells (0 = an id that does not exist)               *)
(*                 keys   graph has exactly the cells' ids as keys            *)
EXTENDS Geo, TLC, Json, IOUtils, FiniteSetsExt

File == JsonDeserialize(IOEnv.TRACE_FILE)
T == File.traces
Want == {File.want[i] : i \in 1 .. Len(File.want)}

VARIABLES ti, pos, bad
tvars == <<ti, pos, bad>>

Order == <<1, 2, 3, 4, -1, -2, -3, -4>>
Rng(s) == {s[i] : i \in 1 .. Len(s)}
Cell(q) == R(q[1], q[2], q[3], q[4])
CellAt(o, i) == Cell(o.cells[i])
CellSet(o) == {Cell(o.cells[i]) : i \in 1 .. Len(o.cells)}
N(o) == Len(o.cells)

\* ---- invariants of an observed mesh ---------------------------------------
TilingOK(o, base, C) ==
    /\ \A i \in 1 .. N(o) : LET c == CellAt(o, i) IN c.w > 0 /\ c.h > 0 /\ InRegion(c, base, C)
    /\ \A i \in 1 .. N(o) : \A j \in i + 1 .. N(o) : ~Overlap(CellAt(o, i), CellAt(o, j), C)
    /\ MapThenSumSet(LAMBDA i : o.cells[i][3] * o.cells[i][4], 1 .. N(o)) = RegionArea(base)
NoOverlap(o, C) ==
    \A i \in 1 .. N(o) : \A j \in i + 1 .. N(o) : ~Overlap(CellAt(o, i), CellAt(o, j), C)
QuarteredOK(o, base, C, maxd) ==
    \A i \in 1 .. N(o) : DepthOf(CellAt(o, i), base, C, maxd) >= 0
IdsUnique(o) == Cardinality(Rng(o.ids)) = Len(o.ids)

GraphOK(o, C) ==
    \A i \in 1 .. N(o) :
        LET a  == CellAt(o, i)
            D  == [j \in 1 .. N(o) |-> IF MayTouch(a, CellAt(o, j)) THEN Dirs(a, CellAt(o, j), C) ELSE {}]
        IN  \A k \in 1 .. 8 :
              LET l == o.graph[i][k]
              IN  /\ Cardinality(Rng(l)) = Len(l)
                  /\ Rng(l) = {j \in 1 .. N(o) : Order[k] \in D[j]}
SymmetryOK(o) ==
    \A i \in 1 .. N(o) : \A k \in 1 .. 8 :
        \A n \in 1 .. Len(o.graph[i][k]) :
            LET j == o.graph[i][k][n]
            IN  j > 0 => \E m \in 1 .. 8 : Order[m] = -Order[k] /\ i \in Rng(o.graph[j][m])

\* id/value tables; cells are identified by rectangle
IdVal(o) == {<<Cell(o.cells[i]), o.ids[i], o.vals[i]>> : i \in 1 .. N(o)}

\* ---- actions ---------------------------------------------------------------
\* quarter the cell with rectangle c: who stays, stays as it was
SplitEffect(p, o, c, C) == CellSet(o) = (CellSet(p) \ {c}) \cup Quarters(c, C)
KeepRest(p, o, gone) ==
    \A i \in 1 .. N(p) : CellAt(p, i) \notin gone =>
        <<CellAt(p, i), p.ids[i], p.vals[i]>> \in IdVal(o)
ValOf(p, c) == p.vals[CHOOSE i \in 1 .. N(p) : CellAt(p, i) = c]
InheritVals(p, o, c, C) ==
    \A i \in 1 .. N(o) : CellAt(o, i) \in Quarters(c, C) => o.vals[i] = ValOf(p, c)
FreshIds(p, o) ==
    \A i \in 1 .. N(o) : CellAt(o, i) \notin CellSet(p) => o.ids[i] \notin Rng(p.ids)

\* splitting around points: the points one after the other, each splitting the
\* cell that contains it in its interior until that is at the finest size
Inside(c, pt, C) ==
    /\ pt[2] > c.y /\ pt[2] < c.y + c.h
    /\ (pt[1] - c.x) % C > 0 /\ (pt[1] - c.x) % C < c.w
RECURSIVE SplitAt(_, _, _, _, _)
SplitAt(S, pt, mw, mh, C) ==
    LET hit == {c \in S : Inside(c, pt, C)}
    IN  IF hit = {} THEN S
        ELSE LET c == CHOOSE c \in hit : TRUE
             IN  IF c.w <= mw \/ c.h <= mh THEN S
                 ELSE SplitAt((S \ {c}) \cup Quarters(c, C), pt, mw, mh, C)
RECURSIVE SplitAll(_, _, _, _, _)
SplitAll(S, pts, mw, mh, C) ==
    IF pts = <<>> THEN S
    ELSE SplitAll(SplitAt(S, Head(pts), mw, mh, C), Tail(pts), mw, mh, C)

Contains(a, b, C) == /\ b.y >= a.y /\ b.y + b.h <= a.y + a.h
                     /\ ((b.x - a.x) % C) + b.w <= a.w
\* merging: region rect b (may be C wide)
WithinRegion(c, b, C) == Contains(b, c, C)
MergeCells(p, m, b, C) == {c \in CellSet(p) : ~WithinRegion(c, b, C)} \cup CellSet(m)
Aligned(base, b, C) ==
    /\ b.w % base.w = 0 /\ b.h % base.h = 0
    \* the grid goes on across the antimeridian, eastwards and westwards
    /\ (((b.x - base.x) % C) % base.w = 0 \/ ((base.x - b.x) % C) % base.w = 0)
    /\ (b.y - base.y) % base.h = 0

Query(o, pt, C) ==
    LET hit == {i \in 1 .. N(o) : Inside(CellAt(o, i), pt, C)}
    IN  IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE

SameMesh(p, o) == /\ IdVal(p) = IdVal(o) /\ N(p) = N(o)
                  /\ \A i \in 1 .. N(p) : \E j \in 1 .. N(o) :
                        /\ p.ids[i] = o.ids[j]
                        /\ \A k \in 1 .. 8 : {p.ids[n] : n \in Rng(p.graph[i][k]) \ {0}}
                                           = {o.ids[n] : n \in Rng(o.graph[j][k]) \ {0}}

\* ---- judgement of one step --------------------------------------------------
Bad(c, name) == IF c THEN {} ELSE {name}
W(f) == f \in Want

\* the observed mesh as such
JudgeState(t, o) ==
         Bad(o.lattice, "lattice")
    \cup (IF ~o.lattice THEN {} ELSE
              (IF W("tiling") /\ t.tiles THEN Bad(TilingOK(o, t.base, t.C), "tiling") ELSE {})
         \cup (IF W("tiling") /\ ~t.tiles THEN Bad(NoOverlap(o, t.C), "overlap") ELSE {})
         \cup (IF W("depth") /\ t.tiles THEN Bad(QuarteredOK(o, t.base, t.C, t.maxd), "quartered") ELSE {})
         \cup (IF W("ids") THEN Bad(IdsUnique(o), "ids-unique") ELSE {})
         \cup (IF W("centre") THEN Bad(o.centre, "centre") ELSE {})
         \cup (IF W("graph") THEN Bad(o.keys, "graph-keys")
                             \cup Bad(GraphOK(o, t.C), "graph")
                             \cup Bad(SymmetryOK(o), "graph-symmetry") ELSE {}))

JudgeEffect(t, s, p, o) ==
    CASE s.op = "init"  -> IF W("effect") /\ t.tiles /\ t.grid
                           THEN Bad(CellSet(o) = InitialCells(t.base, t.C), "initial-grid") ELSE {}
      [] s.op = "split" ->
            LET c == Cell(s.cell)
            IN (IF W("effect") THEN Bad(SplitEffect(p, o, c, t.C), "split-effect")
                               \cup Bad(KeepRest(p, o, {c}), "split-others") ELSE {})
               \cup (IF W("values") THEN Bad(InheritVals(p, o, c, t.C), "split-values") ELSE {})
               \cup (IF W("ids") THEN Bad(FreshIds(p, o), "fresh-ids") ELSE {})
      [] s.op = "points" ->
            LET E == SplitAll(CellSet(p), s.pts, s.mw, s.mh, t.C)
                gone == CellSet(p) \ E
            IN (IF W("effect") THEN Bad(CellSet(o) = E, "points-effect")
                               \cup Bad(KeepRest(p, o, gone), "points-others") ELSE {})
               \cup (IF W("values") THEN
                       Bad(\A i \in 1 .. N(o) : \A j \in 1 .. N(p) :
                             (CellAt(p, j) \in gone /\ Contains(CellAt(p, j), CellAt(o, i), t.C))
                                => o.vals[i] = p.vals[j], "points-values") ELSE {})
               \cup (IF W("ids") THEN Bad(FreshIds(p, o), "fresh-ids") ELSE {})
      [] s.op = "merge" ->
            LET b == Cell(s.region)
                m == s.mesh2
                gone == {c \in CellSet(p) : WithinRegion(c, b, t.C)}
            IN IF Aligned(t.base, b, t.C)
               THEN (IF W("effect") THEN Bad(~s.refused, "merge-refused")
                         \cup Bad(CellSet(o) = MergeCells(p, m, b, t.C), "merge-effect")
                         \cup Bad(KeepRest(p, o, gone), "merge-others")
                         \cup Bad(s.recorded, "merge-config") ELSE {})
                    \cup (IF W("values") THEN
                            Bad(\A i \in 1 .. N(m) : \A j \in 1 .. N(o) :
                                  CellAt(m, i) = CellAt(o, j) => m.vals[i] = o.vals[j], "merge-values") ELSE {})
                    \cup (IF W("ids") THEN
                            Bad(\A i \in 1 .. N(o) : CellAt(o, i) \notin (CellSet(p) \ gone)
                                   => \A j \in 1 .. N(p) : CellAt(p, j) \notin gone => o.ids[i] # p.ids[j],
                                "fresh-ids")
                            \cup Bad(s.stored, "stored-id") ELSE {})
                    \cup (IF W("effect") THEN Bad(SameMesh(m, s.mesh2after), "merge-modifies-second") ELSE {})
               ELSE IF W("effect") THEN Bad(s.refused, "misaligned-accepted")
                          \cup Bad(SameMesh(p, o), "refused-but-changed")
                          \cup Bad(SameMesh(m, s.mesh2after), "merge-modifies-second") ELSE {}
      [] s.op = "query" ->
            IF W("query") THEN
                 Bad(\A k \in 1 .. Len(s.pts) : s.got[k] = Query(o, s.pts[k], t.C), "query-index")
            \cup Bad(\A k \in 1 .. Len(s.pts) : s.inside[k] = (Query(o, s.pts[k], t.C) # 0), "query-inside")
            \cup Bad(SameMesh(p, o), "query-modifies")
            ELSE {}
      [] OTHER -> {"unknown-op"}

Judge(t, k) ==
    LET s == t.steps[k] IN
    IF ~s.ok THEN {"error"}
    ELSE IF ~s.obs.lattice THEN {"lattice"}
    ELSE JudgeState(t, s.obs)
         \cup JudgeEffect(t, s, IF k = 1 THEN s.obs ELSE t.steps[k - 1].obs, s.obs)

\* ---- the walk -------------------------------------------------------------
TraceInit == /\ ti \in 1 .. Len(T) /\ pos = 0 /\ bad = {}
TraceNext ==
    /\ bad = {}
    /\ pos < Len(T[ti].steps)
    /\ pos' = pos + 1
    /\ ti' = ti
    /\ bad' = Judge(T[ti], pos + 1)
    /\ (bad' # {} => PrintT(<<"VERDICT", ti, pos + 1, bad'>>))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceTypeOK == pos \in 0 .. Len(T[ti].steps)
=============================================================================
