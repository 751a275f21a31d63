------------------------------ MODULE BuiltinModel ------------------------------
(* Cells of a coarse lattice and periods of whole months.  Checked: the       *)
(* tables cover every location on every day exactly once, halves average to   *)
(* the whole, the value never leaves the range of the table, and a year's     *)
(* turn repeats.  Every case is emitted and replayed into the real program.   *)
EXTENDS Builtin, TLC
CONSTANTS Step, Lat, Months      \* degrees per lattice step, |latitude| bound, months explored
VARIABLES set, cell, from, to
vars == <<set, cell, from, to>>
C0 == 360
Cells == {c \in {R(Norm(x * Step, C0), y * Step, w * Step, h * Step) : x \in (-(180 \div Step)) .. ((180 \div Step) - 1), y \in (-Lat) .. (Lat - 1), w \in 1 .. 2, h \in 1 .. 2} : c.y + c.h <= 90 /\ c.y >= -90}
First(m) == <<2020, m, 1>>
Last(m) == <<2020, m, Dim(2020, m)>>
Init == /\ set \in {"density", "thickness"} /\ cell \in Cells
        /\ \E m \in Months : from = First(m) /\ to = First(m)
NextDay == to' = (IF to[3] = 1 THEN Last(to[2]) ELSE IF to[2] < 12 THEN First(to[2] + 1) ELSE <<to[1] + 1, 1, 1>>)
Next == to[1] = 2020 /\ to[2] - from[2] < 2 /\ NextDay /\ UNCHANGED <<set, cell, from>>
BuiltinSpec == Init /\ [][Next]_vars

Whole == Total(LAMBDA p : TableArea(set, cell, 1, C0, p[1], p[2]), TablesOf(set)) = cell.w * cell.h
EveryDay == \A no \in BOOLEAN : Total(LAMBDA s : SeasonDays(no, s, from, to), Seasons) = Day(to) - Day(from) + 1
V(a, c) == TableValue(set, a, c, 1, C0, from, to)
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
Between == Leq(V("MIN", cell), V("MEAN", cell)) /\ Leq(V("MEAN", cell), V("MAX", cell))
Halves == cell.w % 2 = 0 =>
    LET h == cell.w \div 2
        a == V("MEAN", R(cell.x, cell.y, h, cell.h))  b == V("MEAN", R(Norm(cell.x + h, C0), cell.y, h, cell.h))
    IN  Ratio(a[1] * b[2] + b[1] * a[2], 2 * a[2] * b[2]) = V("MEAN", cell)
NextYear == (to[1] = 2020 /\ from[2] > 2) => TableValue(set, "MEAN", cell, 1, C0, <<2021, from[2], from[3]>>, <<2021, to[2], to[3]>>) = V("MEAN", cell)
Emit == PrintT(<<"CASE", set, cell.x, cell.y, cell.w, cell.h, from, to>>)
=============================================================================
