-------------------------------- MODULE Docs --------------------------------
(* Vessel files, route files and waypoint tables as a user hands them over    *)
(* (P23).  A value is [k |-> kind, ...]:                                      *)
(*   text  (v: the text)        num (v: twice the number, so 3 is 2 1/2 - 1)  *)
(*   list  (v: its items)       bool, null, obj                               *)
EXTENDS Integers, Sequences, FiniteSets

Rng(q) == {q[i] : i \in 1 .. Len(q)}

Units == {"days", "hours", "seconds"}
Fits(rule, v) ==
    CASE rule = "text"    -> v.k = "text"
      [] rule = "flag"    -> v.k = "bool"
      [] rule = "number"  -> v.k = "num"
      [] rule = "integer" -> v.k = "num" /\ v.v % 2 = 0
      [] rule = "nonneg"  -> v.k = "num" /\ v.v >= 0
      [] rule = "percent" -> v.k = "num" /\ v.v >= 0 /\ v.v <= 200
      [] rule = "unit"    -> v.k = "text" /\ v.v \in Units
      [] rule = "texts"   -> v.k = "list" /\ \A i \in 1 .. Len(v.v) : v.v[i].k = "text"
      [] rule = "pair"    -> v.k = "list" /\ Len(v.v) = 2 /\ \A i \in 1 .. Len(v.v) : v.v[i].k = "text"

VesselRules == [VesselType |-> "text", MaxSpeed |-> "nonneg", Unit |-> "text", MaxIceConc |-> "percent", MinDepth |-> "nonneg"]
VesselNeeds == DOMAIN VesselRules

RouteRules == [objective_function |-> "text", path_variables |-> "texts", vector_names |-> "pair", variable_speed |-> "flag",
               time_unit |-> "unit", early_stopping_criterion |-> "flag", zero_currents |-> "flag",
               smoothing_blocked_sic |-> "number", smoothing_max_iterations |-> "integer",
               smoothing_merge_separation |-> "number", smoothing_converged_sep |-> "number"]
RouteNeeds == {"objective_function", "path_variables", "vector_names", "variable_speed", "time_unit", "early_stopping_criterion", "zero_currents"}

\* doc: [top |-> what it is, fields |-> function from names to values]
Follows(doc, rules, needs) ==
    /\ doc.top = "obj"
    /\ needs \subseteq DOMAIN doc.fields
    /\ \A f \in DOMAIN doc.fields \cap DOMAIN rules : Fits(rules[f], doc.fields[f])
VesselOK(doc) == Follows(doc, VesselRules, VesselNeeds)
RouteOK(doc)  == Follows(doc, RouteRules, RouteNeeds)

\* tab: [cols |-> names of the columns, rows |-> sequence of functions from names to texts,
\*       written as [k |-> "num"] for anything that reads as a number, "text" (v) or "blank"]
WayCols == {"Name", "Lat", "Long", "Source", "Destination"}
Marked(tab, col) == \E i \in 1 .. Len(tab.rows) : tab.rows[i][col].k = "text" /\ tab.rows[i][col].v = "X"
Numeric(tab, col) == \A i \in 1 .. Len(tab.rows) : tab.rows[i][col].k = "num"
WayOK(tab) ==
    /\ tab.top = "table"
    /\ WayCols \subseteq Rng(tab.cols)
    /\ Marked(tab, "Source") /\ Marked(tab, "Destination")
    /\ Numeric(tab, "Lat") /\ Numeric(tab, "Long")

Accept(kind, doc) == CASE kind = "vessel" -> VesselOK(doc)
                       [] kind = "route" -> RouteOK(doc)
                       [] kind = "waypoints" -> WayOK(doc)
=============================================================================
