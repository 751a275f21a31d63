-------------------------------- MODULE Build --------------------------------
(* Building a mesh from data: which data points a cell holds, what the        *)
(* splitting conditions say about it, which cells must be quartered, and what *)
(* value each cell gets.                                                      *)
(*                                                                            *)
(* A data point is a tuple <<x, y, t, v>> (scalar) or <<x, y, t, v, w>>       *)
(* (vector) of lattice coordinates, day number and integer values; NAV is a   *)
(* missing value.  Results are rationals <<p, q>> in lowest terms, NA missing.*)
EXTENDS Geo, FiniteSetsExt, SequencesExt, TLC

NAV == 888888
NA  == <<0, 0>>
Rng(s) == {s[i] : i \in 1 .. Len(s)}
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
SumOver(f(_), I) == FoldSet(LAMBDA i, acc : f(i) + acc, 0, I)

\* ---- P04: assignment of points to cells ------------------------------------
\* half-open: south and west edges excluded, north and east edges included
InCell(p, c, C) ==
    LET o == (p[1] - c.x) % C
    IN  /\ p[2] > c.y /\ p[2] <= c.y + c.h
        /\ IF o = 0 THEN c.w = C ELSE o <= c.w
InRegionPt(p, base, C) == InCell(p, R(base.x, base.y, base.nx * base.w, base.ny * base.h), C)
InPeriod(p, s, t) == ~s.timed \/ (p[3] >= t.tlo /\ p[3] <= t.thi)

\* ---- P18: downsampling ------------------------------------------------------
\* nodes of a full grid, trimmed; blocks counted from the south-west
Rank(v, S) == Cardinality({u \in S : u < v})        \* 0-based
Downsample(P, s, base, C) ==
    LET off(p) == ((p[1] - base.x - 1) % C) + 1            \* 1 .. C
        XS == {off(p) : p \in P}
        YS == {p[2] : p \in P}
        TS == {p[3] : p \in P}
        a == s.ds[1]  b == s.ds[2]
        NBX == IF XS = {} THEN 0 ELSE (Cardinality(XS) + a - 1) \div a
        NBY == IF YS = {} THEN 0 ELSE (Cardinality(YS) + b - 1) \div b
        BlkX(i) == {x \in XS : Rank(x, XS) \div a = i}
        BlkY(j) == {y \in YS : Rank(y, YS) \div b = j}
        Mean(S) == SumOver(LAMBDA v : v, S) \div Cardinality(S)
        Nodes(i, j, t) == {p \in P : off(p) \in BlkX(i) /\ p[2] \in BlkY(j) /\ p[3] = t}
        Val(N, k) == LET V == {p \in N : p[k] # NAV}
                     IN IF V = {} THEN NAV ELSE
                        CASE s.agg = "MIN"  -> Min({p[k] : p \in V})
                          [] s.agg = "MAX"  -> Max({p[k] : p \in V})
                          [] s.agg = "MEAN" -> SumOver(LAMBDA p : p[k], V) \div Cardinality(V)
        Agg(i, j, t) == LET N == Nodes(i, j, t)
                            x == Norm(base.x + Mean(BlkX(i)), C)
                            y == Mean(BlkY(j))
                        IN IF s.vec THEN <<x, y, t, Val(N, 4), Val(N, 5)>>
                           ELSE <<x, y, t, Val(N, 4)>>
        Thin(i, j, t) == LET N == Nodes(i, j, t) IN
                         CHOOSE p \in N : off(p) = Min(BlkX(i)) /\ p[2] = Min(BlkY(j))
    IN  {IF s.agg = "COUNT" THEN Thin(i, j, t) ELSE Agg(i, j, t) :
            i \in 0 .. NBX - 1, j \in 0 .. NBY - 1, t \in TS}

\* the points of a source that count at all (a sequence: points may coincide)
Effective(s, t) ==
    LET q == SelectSeq(s.pts, LAMBDA p : InPeriod(p, s, t) /\ InRegionPt(p, t.base, t.C))
    IN  IF s.ds = <<1, 1>> \/ ~s.grid THEN q
        ELSE SetToSeq(Downsample(Rng(q), s, t.base, t.C))

\* indices of the points of q inside cell c
Inside(q, c, C) == {i \in 1 .. Len(q) : InCell(q[i], c, C)}

\* ---- P03, P19: splitting conditions ------------------------------------------
\* compare the fraction a/b (0 if b = 0) with the bounds
ByFraction(cond, a, b) ==
    IF b = 0 \/ a * cond.lb[2] <= cond.lb[1] * b THEN "CLR"
    ELSE IF a * cond.ub[2] >= cond.ub[1] * b THEN (IF cond.lock THEN "HOM" ELSE "CLR")
    ELSE "HET"

ScalarVerdict(s, q, cond, c, C) ==
    LET P == Inside(q, c, C)
        V == {i \in P : q[i][4] # NAV}
    IN  IF Cardinality(P) < s.minpts THEN "CLR"
        ELSE ByFraction(cond, Cardinality({i \in V : q[i][4] * cond.thr[2] > cond.thr[1]}), Cardinality(V))

\* distance of each (complete) vector from the cell's mean vector
DmagVerdict(s, q, cond, c, C) ==
    LET P == {i \in Inside(q, c, C) : q[i][4] # NAV}
        n == Cardinality(P)
        S1 == SumOver(LAMBDA i : q[i][4], P)
        S2 == SumOver(LAMBDA i : q[i][5], P)
        d(i) == (n * q[i][4] - S1) * (n * q[i][4] - S1) + (n * q[i][5] - S2) * (n * q[i][5] - S2)
        over(i) == d(i) * cond.thr[2] * cond.thr[2] > cond.thr[1] * cond.thr[1] * n * n
    IN  IF n < s.minpts \/ n = 0 THEN "CLR"
        ELSE ByFraction(cond, Cardinality({i \in P : over(i)}), n)

\* finite differences in grid steps, central inside, one-sided at the edges;
\* twice the curl, to stay with integers (full grids without missing values)
CurlVerdict(s, q, cond, c, C) ==
    LET P  == Inside(q, c, C)
        n  == Cardinality(P)
        ox(i) == (q[i][1] - c.x - 1) % C
        XS == {ox(i) : i \in P}
        YS == {q[i][2] : i \in P}
        nx == Cardinality(XS)
        ny == Cardinality(YS)
        At == [gx \in 0 .. nx - 1, gy \in 0 .. ny - 1 |->
                 CHOOSE i \in P : Rank(ox(i), XS) = gx /\ Rank(q[i][2], YS) = gy]
        G2(f(_), k, m) == IF k = 0 THEN 2 * (f(1) - f(0))
                          ELSE IF k = m - 1 THEN 2 * (f(m - 1) - f(m - 2))
                          ELSE f(k + 1) - f(k - 1)
        curl2(gx, gy) == G2(LAMBDA k : q[At[k, gy]][5], gx, nx) - G2(LAMBDA k : q[At[gx, k]][4], gy, ny)
        over == {g \in (0 .. nx - 1) \X (0 .. ny - 1) : curl2(g[1], g[2]) * cond.thr[2] > 2 * cond.thr[1]}
    IN  IF n < s.minpts \/ nx <= 1 \/ ny <= 1 THEN "CLR"
        ELSE ByFraction(cond, Cardinality(over), n)

\* ---- P08: polygons -------------------------------------------------------------
\* a polygon is a union of rectangles with disjoint interiors, on the cylinder
Near(r, c, C) == {R(c.x + k, c.y, c.w, c.h) : k \in {-C, 0, C}}
TouchR(r, c, C) == \E d \in Near(r, c, C) : /\ r[1] <= d.x + d.w /\ d.x <= r[1] + r[3]
                                            /\ r[2] <= d.y + d.h /\ d.y <= r[2] + r[4]
PlaneArea(r, c) == Mx(0, Mn(r[1] + r[3], c.x + c.w) - Mx(r[1], c.x))
                 * Mx(0, Mn(r[2] + r[4], c.y + c.h) - Mx(r[2], c.y))
OverlapArea(r, c, C) == SumOver(LAMBDA d : PlaneArea(r, d), Near(r, c, C))
PolyTouch(p, c, C) == \E r \in Rng(p.rects) : TouchR(r, c, C)
PolyArea(p, c, C)  == SumOver(LAMBDA k : OverlapArea(p.rects[k], c, C), 1 .. Len(p.rects))
Fat(c) == R(c.x - 1, c.y - 1, c.w + 2, c.h + 2)
\* edges are on the lattice: containing the one unit larger cell is containing it strictly
PolyCovers(p, c, C) == PolyArea(p, Fat(c), C) = Area(Fat(c))
Touching(s, c, C) == {k \in 1 .. Len(s.polys) : PolyTouch(s.polys[k], c, C)}
CoveredArea(s, c, C) == SumOver(LAMBDA k : PolyArea(s.polys[k], c, C), 1 .. Len(s.polys))
OutsideTouches(s, c, C) == CoveredArea(s, Fat(c), C) < Area(Fat(c))
BoundaryVerdict(s, cond, c, C) ==
    IF cond.boundary /\ (\E k \in Touching(s, c, C) : ~PolyCovers(s.polys[k], c, C)) THEN "HET" ELSE "CLR"

Verdict(s, q, cond, c, C) ==
    CASE cond.type = "scalar"   -> ScalarVerdict(s, q, cond, c, C)
      [] cond.type = "dmag"     -> DmagVerdict(s, q, cond, c, C)
      [] cond.type = "curl"     -> CurlVerdict(s, q, cond, c, C)
      [] cond.type = "boundary" -> BoundaryVerdict(s, cond, c, C)

\* at the turn of source k
MustSplit(t, eff, k, c) ==
    LET V == {Verdict(t.sources[j], eff[j], t.sources[j].conds[m], c, t.C) :
                 <<j, m>> \in {<<j2, m2>> \in (1 .. k) \X (1 .. t.maxconds) : m2 <= Len(t.sources[j2].conds)}}
    IN  /\ c.w * Pow2(t.maxd) > t.base.w
        /\ "HET" \in V /\ "HOM" \notin V

\* ---- P05, P07: aggregates ---------------------------------------------------------
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Rat(m, n) == LET g == GCD(Abs(m), n) IN IF m = 0 THEN <<0, 1>> ELSE <<IF m < 0 THEN -(Abs(m) \div g) ELSE m \div g, n \div g>>

\* sorted sequence of q[i][k], i in V (values may repeat)
SortedVals(q, V, k) == SortSeq([i \in 1 .. Cardinality(V) |-> q[SetToSeq(V)[i]][k]], LAMBDA a, b : a < b)

Aggregate(s, q, P, k) ==
    LET V == {i \in P : q[i][k] # NAV}
        n == Cardinality(V)
        sum == SumOver(LAMBDA i : q[i][k], V)
        sq  == SumOver(LAMBDA i : q[i][k] * q[i][k], V)
    IN CASE s.agg = "COUNT" -> IF s.vec /\ n = 0 THEN NA ELSE <<n, 1>>
         [] s.agg # "COUNT" /\ n = 0 -> NA
         [] s.agg = "MIN"  /\ n > 0 -> <<Min({q[i][k] : i \in V}), 1>>
         [] s.agg = "MAX"  /\ n > 0 -> <<Max({q[i][k] : i \in V}), 1>>
         [] s.agg = "MEAN" /\ n > 0 -> Rat(sum, n)
         [] s.agg = "MEDIAN" /\ n > 0 ->
               LET v == SortedVals(q, V, k)
               IN  IF n % 2 = 1 THEN <<v[(n + 1) \div 2], 1>>
                   ELSE Rat(v[n \div 2] + v[(n \div 2) + 1], 2)
         \* standard deviations are compared squared
         [] s.agg = "STD" /\ n > 0 ->
               IF s.grid THEN Rat(n * sq - sum * sum, n * n)
               ELSE IF n = 1 THEN NA ELSE Rat(n * sq - sum * sum, n * (n - 1))

LutValue(s, c, C) ==
    LET K == Touching(s, c, C)
        out == OutsideTouches(s, c, C)
        \* values that take part; the outside has value s.outside (NAV: undefined)
        vals == {s.polys[k].v : k \in K} \cup (IF out THEN {s.outside} ELSE {})
        W == SumOver(LAMBDA k : PolyArea(s.polys[k], c, C), K)
        w(k) == PolyArea(s.polys[k], c, C)
        sum == SumOver(LAMBDA k : w(k) * s.polys[k].v, K)
        sq  == SumOver(LAMBDA k : w(k) * s.polys[k].v * s.polys[k].v, K)
        wUpTo(v) == SumOver(w, {k \in K : s.polys[k].v <= v})
    IN CASE s.agg = "COUNT" -> <<Cardinality(K) + (IF out THEN 1 ELSE 0), 1>>
         [] s.agg # "COUNT" /\ NAV \in vals -> NA
         [] s.agg = "MIN" /\ NAV \notin vals -> <<Min(vals), 1>>
         [] s.agg = "MAX" /\ NAV \notin vals -> <<Max(vals), 1>>
         [] s.agg = "MEAN" /\ NAV \notin vals -> Rat(sum, W)
         [] s.agg = "STD" /\ NAV \notin vals -> Rat(W * sq - sum * sum, W * W)
         [] s.agg = "MEDIAN" /\ NAV \notin vals ->
               <<Min({v \in {s.polys[k].v : k \in K} : 2 * wUpTo(v) >= W}), 1>>

\* ---- P06: ancestors and fill policies ------------------------------------------------
ParentOf(c, base, C) ==
    R(Norm(base.x + (((c.x - base.x) % C) \div (2 * c.w)) * 2 * c.w, C),
      base.y + ((c.y - base.y) \div (2 * c.h)) * 2 * c.h, 2 * c.w, 2 * c.h)
RECURSIVE Chain(_, _, _)
Chain(c, base, C) == IF c.w >= base.w THEN <<c>> ELSE <<c>> \o Chain(ParentOf(c, base, C), base, C)

OwnValue(s, q, c, C, k) == IF s.kind = "lut" THEN LutValue(s, c, C) ELSE Aggregate(s, q, Inside(q, c, C), k)
RECURSIVE Nearest(_, _, _, _, _)
Nearest(s, q, chain, C, k) ==          \* first non-missing value up the chain
    IF chain = <<>> THEN NA
    ELSE LET v == OwnValue(s, q, Head(chain), C, k)
         IN IF v # NA THEN v ELSE Nearest(s, q, Tail(chain), C, k)
FilledValue(s, q, chain, C, k) ==
    IF s.fill[1] = "parent" THEN Nearest(s, q, chain, C, k)
    ELSE LET v == OwnValue(s, q, Head(chain), C, k)
         IN IF v # NA THEN v
            ELSE IF s.fill[1] = "nan" THEN NA ELSE <<s.fill[2], s.fill[3]>>

RECURSIVE FirstOf(_, _, _, _, _)
FirstOf(t, eff, chain, srcs, C) ==     \* several scalar sources of one variable
    IF srcs = <<>> THEN NA
    ELSE LET j == Head(srcs)
             v == FilledValue(t.sources[j], eff[j], chain, C, 4)
         IN IF v # NA THEN v ELSE FirstOf(t, eff, chain, Tail(srcs), C)

\* vectors: MIN and MAX pick one complete vector of extreme magnitude (any of them
\* on ties); the other aggregates and their fills are taken component by component
VecExtreme(s, q, P) ==
    LET V == {i \in P : q[i][4] # NAV /\ q[i][5] # NAV}
        m(i) == q[i][4] * q[i][4] + q[i][5] * q[i][5]
        best == IF s.agg = "MIN" THEN Min({m(i) : i \in V}) ELSE Max({m(i) : i \in V})
    IN  IF V = {} THEN {} ELSE {<< <<q[i][4], 1>>, <<q[i][5], 1>> >> : i \in {i \in V : m(i) = best}}
RECURSIVE VecExtremes(_, _, _, _)
VecExtremes(s, q, chain, C) ==
    IF chain = <<>> THEN {<<NA, NA>>}
    ELSE LET E == VecExtreme(s, q, Inside(q, Head(chain), C))
         IN IF E # {} THEN E
            ELSE IF s.fill[1] = "parent" THEN VecExtremes(s, q, Tail(chain), C)
            ELSE IF s.fill[1] = "nan" THEN {<<NA, NA>>}
            ELSE {<< <<s.fill[2], s.fill[3]>>, <<s.fill[2], s.fill[3]>> >>}
VecAllowed(s, q, chain, C) ==          \* set of allowed pairs of results
    IF s.agg \in {"MIN", "MAX"} THEN VecExtremes(s, q, chain, C)
    ELSE {<<FilledValue(s, q, chain, C, 4), FilledValue(s, q, chain, C, 5)>>}
=============================================================================
