----------------------------- MODULE CompareModel -----------------------------
(* A mesh file and an edited copy of it: values changed (visibly or only      *)
(* beyond the fourth digit), attributes dropped or added, cells removed,      *)
(* replaced, renumbered or rewired.  Checked: a mesh never differs from       *)
(* itself, differences in common cells are mutual, an unedited cell is never  *)
(* reported, a visible edit always is, one beyond the fourth digit never.     *)
EXTENDS Compare, TLC, Json
CONSTANTS MaxEdits
VARIABLES a, b, log
vars == <<a, b, log>>
Num(s, m, e) == [k |-> "num", s |-> s, m |-> m, e |-> e]
Text(t) == [k |-> "text", v |-> t]
Near == {Num(1, 1234400, -3), Num(1, 1233600, -3), Num(1, 1234001, -3)}           \* 1234 to four digits
Far  == {Num(-1, 1234000, -3), Num(1, 1234600, -3), Num(1, 1234000, -2), Num(0, 0, 0), Nan, [k |-> "inf", s |-> 1]}
Carry == Num(1, 9999600, -4)                                                      \* 1000 to four digits
List(p, q) == [k |-> "list", v |-> <<p, q>>]
Cell(i, v) == [id |-> Text(i), v |-> v, u |-> List(Num(1, 2500000, -6), Num(-1, 5000000, -7))]
G0 == [d \in {"1", "2", "-2"} |-> <<>>]
Start == [cells |-> [A |-> Cell("0", Num(1, 1234000, -3)), B |-> Cell("1", Num(1, 1000000, -3)), C |-> Cell("2", Nan)],
          graph |-> [i \in {"0", "1", "2"} |-> IF i = "0" THEN [G0 EXCEPT !["2"] = <<"1", "2">>] ELSE IF i = "1" THEN [G0 EXCEPT !["-2"] = <<"0">>] ELSE [G0 EXCEPT !["-2"] = <<"0">>]]]
Init == a = Start /\ b = Start /\ log = <<>>
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Did(what, g) == log' = Append(log, [what |-> what, g |-> g])
Edit ==
    \/ \E g \in Geoms(b) : \E v \in Near \cup Far \cup {Carry} :
          "v" \in DOMAIN b.cells[g] /\ b' = [b EXCEPT !.cells[g].v = v] /\ Did("value", g)
    \/ \E g \in Geoms(b) : \E v \in {List(Num(1, 2500400, -6), Num(-1, 5000000, -7)), List(Num(1, 2500000, -6), Num(-1, 5001000, -7)), [k |-> "list", v |-> <<Num(1, 2500000, -6)>>]} :
          b' = [b EXCEPT !.cells[g].u = v] /\ Did("list", g)
    \/ \E g \in Geoms(b) : "v" \in DOMAIN b.cells[g] /\ b' = [b EXCEPT !.cells[g] = Drop(@, "v")] /\ Did("drop", g)
    \/ \E g \in Geoms(b) : b' = [b EXCEPT !.cells[g] = Put(@, "w", Num(1, 1000000, 0))] /\ Did("add", g)
    \/ \E g \in Geoms(b) : Cardinality(Geoms(b)) > 1 /\ b' = [b EXCEPT !.cells = Drop(@, g), !.graph = Drop(@, b.cells[g].id.v)] /\ Did("remove", g)
    \/ \E g \in Geoms(b) : g \o "x" \notin Geoms(b) /\ b' = [b EXCEPT !.cells = Put(Drop(@, g), g \o "x", @[g])] /\ Did("move", g)
    \/ \E g \in Geoms(b) : LET i == b.cells[g].id.v IN
          i # "7" /\ "7" \notin DOMAIN b.graph /\ b' = [b EXCEPT !.cells[g].id = Text("7"), !.graph = Put(Drop(@, i), "7", @[i])] /\ Did("renumber", g)
    \/ \E g \in Geoms(b) : LET i == b.cells[g].id.v IN
          \E q \in {<<>>, <<"0">>, <<"2", "1">>} : b' = [b EXCEPT !.graph[i]["2"] = q] /\ Did("rewire", g)
    \/ \E g \in Geoms(b) : LET i == b.cells[g].id.v IN                    \* the same neighbours in another direction
          \E p \in {"2", "-2"} : b.graph[i][p] # <<>> /\ b.graph[i]["1"] = <<>>
               /\ b' = [b EXCEPT !.graph[i]["1"] = @ \o b.graph[i][p], !.graph[i][p] = <<>>] /\ Did("turn", g)
    \/ \E g \in Geoms(b) : "v" \in DOMAIN b.cells[g] /\ "w" \notin DOMAIN b.cells[g]
          /\ b' = [b EXCEPT !.cells[g] = Put(Drop(@, "v"), "w", @.v)] /\ Did("rename", g)
Next == Len(log) < MaxEdits /\ Edit /\ UNCHANGED a
CSpec == Init /\ [][Next]_vars
CView == b

Reflexive == \A m \in {a, b} : NewCells(m, m) = {} /\ ValueDiff(m, m) = {} /\ AttrDiff(m, m) = {} /\ GraphDiff(m, m) = {}
Mutual == ValueDiff(a, b) = ValueDiff(b, a) /\ AttrDiff(a, b) = AttrDiff(b, a)
          /\ {IdOf(b, g) : g \in GraphDiff(a, b)} = {IdOf(a, g) : g \in GraphDiff(b, a)}
OnlyEdited ==
    LET did(w) == {log[i].g : i \in {j \in 1 .. Len(log) : log[j].what \in w}}
    IN  /\ ValueDiff(a, b) \subseteq did({"value", "list", "drop", "add", "renumber", "rename"})
        /\ AttrDiff(a, b) \subseteq did({"drop", "add", "rename"})
        /\ NewCells(a, b) \subseteq {g \o "x" : g \in did({"move"})} \cup {g \o "xx" : g \in did({"move"})} \cup {g \o "x" : g \in did({"value", "list", "drop", "add", "renumber", "rewire", "move", "remove", "turn", "rename"})}
EditsShow == Len(log) = 1 =>
    LET e == log[1] IN
    CASE e.what = "value" -> (e.g \in ValueDiff(a, b)) = ~Same(Val(a, e.g, "v"), Val(b, e.g, "v"))
      [] e.what = "list" -> (e.g \in ValueDiff(a, b)) = ~Same(Val(a, e.g, "u"), Val(b, e.g, "u"))
      [] e.what = "drop" -> AttrDiff(a, b) = {e.g} /\ (e.g \in ValueDiff(a, b)) = (Val(a, e.g, "v").k # "nan")
      [] e.what = "add" -> AttrDiff(a, b) = {e.g} /\ ValueDiff(a, b) = {}
      [] e.what = "remove" -> NewCells(a, b) = {} /\ NewCells(b, a) = {e.g}
      [] e.what = "move" -> NewCells(a, b) = {e.g \o "x"} /\ NewCells(b, a) = {e.g}
      [] e.what = "renumber" -> ValueDiff(a, b) = {e.g} /\ GraphDiff(a, b) = {}
      [] e.what = "turn" -> GraphDiff(a, b) = {e.g}
      [] e.what = "rename" -> AttrDiff(a, b) = {e.g} /\ (e.g \in ValueDiff(a, b)) = (Val(a, e.g, "v").k # "nan")
      [] e.what = "rewire" -> GraphDiff(a, b) \subseteq {e.g}
FourDigits == \A x \in Near, y \in Near : Same(x, y)
FarApart == \A x \in Near, y \in Far : ~Same(x, y)
Emit == PrintT(<<"PAIR", ToJson([a |-> a, b |-> b])>>)
=============================================================================
