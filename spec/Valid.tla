-------------------------------- MODULE Valid --------------------------------
(* How far a mesh is from the data behind it (P25).                           *)
(* Cells are [x, y, w, h, v] (v a sequence of numbers, one per component;     *)
(* None where the value is missing), points [x, y, v].                        *)
EXTENDS Geo
None == 999999999
\* the cell a point counts towards: south and west edges excluded
Counts(p, c, C) == ((p.x - c.x - 1) % C) < c.w /\ c.y < p.y /\ p.y <= c.y + c.h
Home(S, p, C) == {c \in S : Counts(p, c, C)}
Known(v) == \A i \in 1 .. Len(v) : v[i] # None
RECURSIVE Dist2(_, _, _)
Dist2(a, b, i) == IF i = 0 THEN 0 ELSE (a[i] - b[i]) * (a[i] - b[i]) + Dist2(a, b, i - 1)
\* squared differences of the points that have a cell, both values being known
Square(S, p, C) == LET h == Home(S, p, C) IN
    IF h = {} THEN -1
    ELSE LET c == CHOOSE c \in h : TRUE IN IF Known(c.v) /\ Known(p.v) THEN Dist2(c.v, p.v, Len(p.v)) ELSE -1
Squares(S, P, C) == [i \in 1 .. Len(P) |-> Square(S, P[i], C)]
Used(q) == Cardinality({i \in 1 .. Len(q) : q[i] >= 0})
RECURSIVE SumSq(_, _)
SumSq(q, i) == IF i = 0 THEN 0 ELSE (IF q[i] >= 0 THEN q[i] ELSE 0) + SumSq(q, i - 1)
Root(n) == CHOOSE r \in 0 .. 200 : r * r = n         \* differences are chosen to have whole lengths
IsSquare(n) == \E r \in 0 .. 200 : r * r = n
RECURSIVE SumAbs(_, _)
SumAbs(q, i) == IF i = 0 THEN 0 ELSE (IF q[i] >= 0 THEN Root(q[i]) ELSE 0) + SumAbs(q, i - 1)

\* the points of a sampled square: from the sample north-eastwards, cut at the region
InSquare(p, sq, C) == ((p.x - sq.x - 1) % C) < sq.w /\ sq.y < p.y /\ p.y <= sq.y + sq.h
=============================================================================
