-------------------------------- MODULE Builtin --------------------------------
(* Data that comes with the package (P21): the seasonal tables of sea ice     *)
(* density and thickness, the abstract shapes, and random fields.             *)
EXTENDS Conf, FiniteSetsExt

\* ---- arithmetic ---------------------------------------------------------------
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsV(n) == IF n < 0 THEN -n ELSE n
Ratio(m, n) == IF m = 0 THEN <<0, 1>>
               ELSE LET g == Gcd(AbsV(m), AbsV(n))
                        s == IF (m < 0) = (n < 0) THEN 1 ELSE -1
                    IN  <<s * (AbsV(m) \div g), AbsV(n) \div g>>
Mx2(a, b) == IF a > b THEN a ELSE b
Mn2(a, b) == IF a < b THEN a ELSE b
Total(f(_), X) == FoldSet(LAMBDA e, acc : acc + f(e), 0, X)

\* ---- seasons --------------------------------------------------------------------
Seasons == {"wi", "sp", "su", "au"}
NorthSeason(m) == CASE m \in {12, 1, 2} -> "wi" [] m \in {3, 4, 5} -> "sp" [] m \in {6, 7, 8} -> "su" [] OTHER -> "au"
SouthSeason(m) == CASE m \in {12, 1, 2} -> "su" [] m \in {3, 4, 5} -> "au" [] m \in {6, 7, 8} -> "wi" [] OTHER -> "sp"
\* days of the period (both ends included) that fall in a month
DaysIn(y, m, from, to) == Mx2(0, Mn2(Day(to), DayNum(y, m, Dim(y, m))) - Mx2(Day(from), DayNum(y, m, 1)) + 1)
DaysOf(season, of(_), from, to) ==
    Total(LAMBDA ym : IF of(ym[2]) = season THEN DaysIn(ym[1], ym[2], from, to) ELSE 0, (from[1] .. to[1]) \X (1 .. 12))

\* ---- sectors ----------------------------------------------------------------------
(* degrees: [w, e, s, n, north, val]; the part of the northern hemisphere     *)
(* outside the Baltic is the whole hemisphere minus the Baltic                *)
T(wi, sp, su, au) == [wi |-> wi, sp |-> sp, su |-> su, au |-> au]
DensityTable == T(920, 900, 875, 900)
Ross == T(72, 67, 132, 82)
Sector(w, e, t) == [w |-> w, e |-> e, s |-> -90, n |-> 0, val |-> t]
SouthSectors == {Sector(-180, -130, Ross), Sector(-130, -60, T(65, 79, 214, 79)), Sector(-60, -45, T(133, 133, 120, 138)),
                 Sector(-45, 20, T(54, 89, 87, 44)), Sector(20, 90, T(59, 78, 105, 45)), Sector(90, 160, T(72, 68, 117, 75)), Sector(160, 180, Ross)}
Baltic == [w |-> 12, e |-> 32, s |-> 54, n |-> 66, val |-> T(30, 30, 30, 30)]
North == [w |-> -180, e |-> 180, s |-> 0, n |-> 90]
South == [w |-> -180, e |-> 180, s |-> -90, n |-> 0]

\* area of cell c (lattice units, K to a degree) in a box of degrees
Cut(a0, a1, b0, b1) == Mx2(0, Mn2(a1, b1) - Mx2(a0, b0))
InBox(c, b, K, C) == (Cut(c.x, c.x + c.w, K * b.w, K * b.e) + Cut(c.x - C, c.x + c.w - C, K * b.w, K * b.e) + Cut(c.x + C, c.x + c.w + C, K * b.w, K * b.e))
                   * Cut(c.y, c.y + c.h, K * b.s, K * b.n)

\* sectors with the same table and area must both count: total area by table
TableArea(set, c, K, C, t, no) ==
    IF set = "density" THEN InBox(c, IF no THEN North ELSE South, K, C)
    ELSE IF ~no THEN Total(LAMBDA s : IF s.val = t THEN InBox(c, s, K, C) ELSE 0, SouthSectors)
    ELSE IF t = Baltic.val THEN InBox(c, Baltic, K, C) ELSE InBox(c, North, K, C) - InBox(c, Baltic, K, C)
TablesOf(set) == IF set = "density" THEN {<<DensityTable, TRUE>>, <<DensityTable, FALSE>>}
                 ELSE {<<s.val, FALSE>> : s \in SouthSectors} \cup {<<Baltic.val, TRUE>>, <<Ross, TRUE>>}
Present(set, c, K, C) == {p \in TablesOf(set) : TableArea(set, c, K, C, p[1], p[2]) > 0}
SeasonDays(no, s, from, to) == IF no THEN DaysOf(s, NorthSeason, from, to) ELSE DaysOf(s, SouthSeason, from, to)
TableValue(set, agg, c, K, C, from, to) ==
    LET n == Day(to) - Day(from) + 1
        days == [no \in BOOLEAN |-> [s \in Seasons |-> SeasonDays(no, s, from, to)]]
        sum == Total(LAMBDA p : TableArea(set, c, K, C, p[1], p[2]) * Total(LAMBDA s : days[p[2]][s] * p[1][s], Seasons), TablesOf(set))
        vals == UNION {{p[1][s] : s \in {s2 \in Seasons : days[p[2]][s2] > 0}} : p \in Present(set, c, K, C)}
    IN  CASE agg = "MEAN" -> Ratio(sum, n * c.w * c.h)
          [] agg = "MIN" -> <<Min(vals), 1>>
          [] agg = "MAX" -> <<Max(vals), 1>>

\* ---- abstract shapes ------------------------------------------------------------------
(* p: [shape, nx, ny, dx, dy, x, y, centred, cx, cy, radius, width, height,   *)
(*     vertical, gx, gy, mu, mv], lengths in lattice units.  Node (i, j) is   *)
(* column i, row j, both from 0.                                              *)
Vec(p) == p.shape \in {"vector_circle", "vector_rectangle", "vector_gradient"}
NodeX(p, i) == p.x + i * p.dx
NodeY(p, j) == p.y + j * p.dy
CentreX(p) == IF p.centred THEN p.cx ELSE NodeX(p, p.nx \div 2)
CentreY(p) == IF p.centred THEN p.cy ELSE NodeY(p, p.ny \div 2)
InShape(p, i, j) ==
    LET a == NodeX(p, i) - CentreX(p)  b == NodeY(p, j) - CentreY(p)
    IN  IF p.shape \in {"circle", "vector_circle"} THEN a * a + b * b <= p.radius * p.radius
        ELSE AbsV(a) <= p.width /\ AbsV(b) <= p.height
Height(p, i, j) ==                     \* of the unit pattern
    CASE p.shape \in {"gradient", "vector_gradient"} -> IF p.vertical THEN Ratio(j, p.ny - 1) ELSE Ratio(i, p.nx - 1)
      [] p.shape = "checkerboard" -> <<(((i * p.dx) \div p.gx) + ((j * p.dy) \div p.gy)) % 2, 1>>
      [] OTHER -> IF InShape(p, i, j) THEN <<1, 1>> ELSE <<0, 1>>
Times(m, r) == Ratio(m * r[1], r[2])
ShapeValue(p, i, j) ==
    LET h == Height(p, i, j)
    IN  IF ~Vec(p) THEN <<Times(p.mu, h)>>
        ELSE IF p.shape # "vector_gradient" THEN <<Times(p.mu, h), Times(p.mv, h)>>
        ELSE IF p.vertical THEN <<<<0, 1>>, Times(p.mv, h)>> ELSE <<Times(p.mu, h), <<0, 1>>>>
\* the nodes on the western and southern edge belong to the cells next door
ShapeNodes(p, C) == {<<Norm(NodeX(p, i), C), NodeY(p, j), ShapeValue(p, i, j)>> : i \in 1 .. (p.nx - 1), j \in 1 .. (p.ny - 1)}
=============================================================================
