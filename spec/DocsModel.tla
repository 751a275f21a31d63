------------------------------ MODULE DocsModel ------------------------------
(* A user editing a vessel file, a route file or a waypoint table, starting   *)
(* from a well-formed one.  Checked on everything reachable: what is not      *)
(* required may be left out, unknown additions change nothing, every required *)
(* part is indeed required, and more waypoints never hurt.  Everything is     *)
(* emitted and submitted to the real validators (DocsTrace).                  *)
EXTENDS Docs, TLC, Json
CONSTANTS MaxEdits
VARIABLES kind, doc, edits
vars == <<kind, doc, edits>>
Text(s) == [k |-> "text", v |-> s]
Num(v) == [k |-> "num", v |-> v]
List(q) == [k |-> "list", v |-> q]
K(x) == [k |-> x]

Vessel == [top |-> "obj", fields |-> [VesselType |-> Text("ship"), MaxSpeed |-> Num(53), Unit |-> Text("km/hr"), MaxIceConc |-> Num(160), MinDepth |-> Num(20)]]
Route == [top |-> "obj", fields |-> [objective_function |-> Text("traveltime"), path_variables |-> List(<<Text("fuel"), Text("traveltime")>>),
            vector_names |-> List(<<Text("uC"), Text("vC")>>), variable_speed |-> K("bool"), time_unit |-> Text("days"),
            early_stopping_criterion |-> K("bool"), zero_currents |-> K("bool"), smoothing_max_iterations |-> Num(4000)]]
Row(n, s, d) == [Name |-> Text(n), Lat |-> K("num"), Long |-> K("num"), Source |-> s, Destination |-> d]
Way == [top |-> "table", cols |-> <<"Name", "Lat", "Long", "Source", "Destination">>,
        rows |-> <<Row("A", Text("X"), K("blank")), Row("B", K("blank"), Text("X"))>>]

Init == edits = 0 /\ \/ kind = "vessel" /\ doc = Vessel
                     \/ kind = "route" /\ doc = Route
                     \/ kind = "waypoints" /\ doc = Way
Values == {Text(""), Text("hours"), Text("seconds"), Text("minutes"), Text("Days"), Text("5"), Num(-1), Num(-2), Num(0), Num(1), Num(7), Num(200), Num(201), Num(202), Num(1000000),
           K("bool"), K("null"), K("obj"), List(<<>>), List(<<Text("a")>>), List(<<Text("a"), Text("b")>>), List(<<Text("a"), Num(2)>>),
           List(<<Text("a"), Text("b"), Text("c")>>), List(<<Text("a"), K("null"), Text("c")>>)}
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rules == IF kind = "vessel" THEN VesselRules ELSE RouteRules
EditFields ==
    /\ kind # "waypoints" /\ UNCHANGED kind
    /\ \/ \E f \in DOMAIN doc.fields : doc' = [doc EXCEPT !.fields = Drop(@, f)]
       \/ \E f \in DOMAIN Rules : \E v \in Values : doc' = [doc EXCEPT !.fields = Put(@, f, v)]
       \/ \E v \in {Num(3), K("null")} : doc' = [doc EXCEPT !.fields = Put(@, "colour", v)]
       \/ \E t \in {"list", "number"} : doc' = [doc EXCEPT !.top = t]
Marks == {Text("X"), Text("x"), Text("XX"), Text("Y"), K("blank")}
Coords == {K("num"), Text("north"), Text("12S"), K("blank")}
EditTable ==
    /\ kind = "waypoints" /\ UNCHANGED kind
    /\ \/ \E c \in Rng(doc.cols) : doc' = [doc EXCEPT !.cols = SelectSeq(@, LAMBDA x : x # c)]
       \/ "Note" \notin Rng(doc.cols) /\ doc' = [doc EXCEPT !.cols = Append(@, "Note"), !.rows = [i \in DOMAIN @ |-> Put(@[i], "Note", K("blank"))]]
       \/ \E i \in DOMAIN doc.rows : \E c \in {"Source", "Destination"} : \E m \in Marks : doc' = [doc EXCEPT !.rows[i] = Put(@, c, m)]
       \/ \E i \in DOMAIN doc.rows : \E c \in {"Lat", "Long"} : \E m \in Coords : doc' = [doc EXCEPT !.rows[i] = Put(@, c, m)]
       \/ \E i \in DOMAIN doc.rows : doc' = [doc EXCEPT !.rows = [j \in 1 .. Len(@) - 1 |-> @[IF j < i THEN j ELSE j + 1]]]
       \/ Len(doc.rows) = 2 /\ "Note" \notin Rng(doc.cols)
             /\ \E s, d \in {Text("X"), K("blank")} : doc' = [doc EXCEPT !.rows = Append(@, Row("C", s, d))]
       \/ \E t \in {"list", "number"} : doc' = [doc EXCEPT !.top = t]
Next == edits < MaxEdits /\ edits' = edits + 1 /\ (EditFields \/ EditTable)
DocsSpec == Init /\ [][Next]_vars
DocsView == <<kind, doc>>

StartAccepted == edits = 0 => Accept(kind, doc)
ExtrasIgnored == kind # "waypoints" => Accept(kind, [doc EXCEPT !.fields = Put(@, "extra", K("null"))]) = Accept(kind, doc)
NeedsNeeded == kind # "waypoints" =>
    \A f \in (IF kind = "vessel" THEN VesselNeeds ELSE RouteNeeds) : ~Accept(kind, [doc EXCEPT !.fields = Drop(@, f)])
OptionalFree == (kind = "route" /\ Accept(kind, doc)) =>
    \A f \in DOMAIN doc.fields \ RouteNeeds : Accept(kind, [doc EXCEPT !.fields = Drop(@, f)])
MoreRows == (kind = "waypoints" /\ Accept(kind, doc) /\ "Note" \notin Rng(doc.cols)) =>
    \A s, d \in Marks : Accept(kind, [doc EXCEPT !.rows = Append(@, Row("Z", s, d))])
OrderFree == kind = "waypoints" =>
    Accept(kind, [doc EXCEPT !.rows = [i \in DOMAIN @ |-> @[Len(@) + 1 - i]]]) = Accept(kind, doc)
Emit == PrintT(<<"DOC", ToJson([kind |-> kind, doc |-> doc])>>)
=============================================================================
