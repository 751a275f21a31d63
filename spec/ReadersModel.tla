------------------------------ MODULE ReadersModel ------------------------------
(* Catalogues growing file by file, for every reader, region and period of a  *)
(* small universe.  Checked: what is delivered lies in the region, regions    *)
(* side by side deliver disjoint sets that add up, new files never disturb    *)
(* what the others contribute.  Every catalogue is emitted and replayed.      *)
EXTENDS Readers, TLC, Json
CONSTANTS Circle, MaxDate     \* lattice units of the circle; days 0 .. MaxDate

VARIABLES rd, reg, per, dates
vars == <<rd, reg, per, dates>>
Half == Circle \div 2
Regions == {R(-4, -2, 4, 4), R(-3, -1, 6, 2), R(2, -2, 3, 4), R(Half - 2, -2, 4, 3), R(Half - 4, -1, 4, 4), R(-Half, -2, 3, 4), R(-Half, -2, Circle, 4), R(Half - 3, -2, 8, 5)}
Periods == {<<2 * a, 2 * b + 1>> : a \in 1 .. MaxDate, b \in 1 .. MaxDate} \cap {p \in (0 .. 2 * MaxDate) \X (0 .. 2 * MaxDate + 1) : p[1] < p[2]}
\* the file of day d: a fixed grid off the antimeridian, the value tells node and day apart
Grid == {<<x, y>> : x \in {2 * k + 1 - Half : k \in 0 .. (Half - 1)} \cup {-4, 0, 2}, y \in -2 .. 2}
FileOf(d) == [date |-> 2 * d,
              nodes |-> {[x |-> g[1], y |-> g[2], t |-> (IF rd \in Static THEN -1 ELSE IF Selection(rd) = "latest" THEN 2 * d + 2 * k ELSE 2 * d + k), a |-> 12 * (100 * d + 10 * k + g[1]), b |-> 12 * g[2], gone |-> FALSE] :
                            g \in Grid, k \in IF rd \in Static THEN {0} ELSE IF Selection(rd) = "latest" THEN 1 .. (MaxDate + 2) ELSE {0, 1}}]
Files(D) == {FileOf(d) : d \in D}
Init == rd \in (AllReaders \ {"reprojected_csv", "reprojected_vector"}) /\ reg \in Regions /\ per \in Periods /\ dates = {}
Next == \E d \in 0 .. MaxDate : /\ d \notin dates /\ (rd \in Static => dates = {})
                                /\ dates' = dates \cup {d} /\ UNCHANGED <<rd, reg, per>>
ReadersSpec == Init /\ [][Next]_vars

\* raw delivery: conversions play no part in where and when
Raw(D, r) == Present(rd, Files(D), r, per, Circle)
Where == \A n \in Raw(dates, reg) : Inside(n, reg, Circle) /\ InPeriod(n.t, per)
West(r, k) == R(r.x, r.y, k, r.h)
East(r, k) == R(Norm(r.x + k, Circle), r.y, r.w - k, r.h)
Additive == \A k \in 1 .. (reg.w - 1) :
    /\ Raw(dates, West(reg, k)) \cap Raw(dates, East(reg, k)) = {}
    /\ Raw(dates, West(reg, k)) \cup Raw(dates, East(reg, k)) = Raw(dates, reg)
OneForecast == Selection(rd) = "latest" => Cardinality(Chosen(rd, Files(dates), per)) <= 1
Grows == [][Selection(rd) # "latest" => Raw(dates, reg) \subseteq Raw(dates', reg)]_vars
Useful == Chosen(rd, Files(dates), per) # {}
Emit == Useful => PrintT(<<"CAT", rd, reg.x, reg.y, reg.w, reg.h, per[1], per[2], dates>>)
=============================================================================
