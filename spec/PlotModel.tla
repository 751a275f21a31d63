------------------------------ MODULE PlotModel ------------------------------
(* All meshes of three cells in a row with a colour map and a flag (or a      *)
(* second colour map), every value present, missing, true or false.  Checked: *)
(* every cell has a colour, flags win, the extremes get the ends of the map,  *)
(* larger values get larger indices.                                          *)
EXTENDS Plot, TLC, Json
VARIABLES layers, v1, v2, stage
vars == <<layers, v1, v2, stage>>
Num == {NV, 0, 3, 8}
Bool == {NV, 0, 1}
Init == /\ layers \in {<<"cmap">>, <<"cmap", "flag">>, <<"flag", "cmap">>, <<"cmap", "cmap">>}
        /\ v1 = <<>> /\ v2 = <<>> /\ stage = 0
Value(i, v) == IF i <= Len(layers) THEN v \in (IF layers[i] = "cmap" THEN Num ELSE Bool) ELSE v = NV
Cell == /\ stage < 3 /\ stage' = stage + 1 /\ UNCHANGED layers
        /\ \E a \in Num \cup Bool, b \in Num \cup Bool :
              Value(1, a) /\ Value(2, b) /\ v1' = Append(v1, a) /\ v2' = Append(v2, b)
PSpec == Init /\ [][Cell]_vars
S == {[x |-> i, v |-> IF Len(layers) = 1 THEN <<v1[i]>> ELSE <<v1[i], v2[i]>>] : i \in 1 .. stage}
Painted == \A c \in S : LET t == Top(layers, c) IN (t = 0 <=> \A i \in 1 .. Len(layers) : ~Paints(layers, c, i))
FlagsWin == \A c \in S, i \in 1 .. Len(layers) : (layers[i] = "flag" /\ c.v[i] = 1) => Colours(layers, S, c) = {<<i, 1>>}
Ends == \A i \in 1 .. Len(layers) : layers[i] = "cmap" /\ Cardinality(Vals(S, i)) > 1 =>
          Index(Lowest(Vals(S, i)), Vals(S, i)) = 0 /\ Index(Highest(Vals(S, i)), Vals(S, i)) = 255
Monotone == \A i \in 1 .. Len(layers) : layers[i] = "cmap" =>
          \A a, b \in Vals(S, i) : a < b => Index(a, Vals(S, i)) < Index(b, Vals(S, i))
Emit == stage = 3 => PrintT(<<"HIST", ToJson([layers |-> layers, v1 |-> v1, v2 |-> v2])>>)
=============================================================================
