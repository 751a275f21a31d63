-------------------------------- MODULE Plot --------------------------------
(* A plot of a mesh (P26): layers painted one over the other, every cell in   *)
(* the colour of its value.  layers: sequence of "cmap" and "flag"; a cell    *)
(* carries in .v one value per layer, NV where it has none to show.  Colours  *)
(* are <<layer, index>>: index 0 .. 255 into the layer's colour map, 1 for    *)
(* the colour of a flag; Bare where nothing is painted.                       *)
EXTENDS Integers, Sequences, FiniteSets
NV == -999999
Bare == <<0, 0>>
Vals(S, i) == {c.v[i] : c \in S} \ {NV}
Lowest(V) == CHOOSE v \in V : \A u \in V : v <= u
Highest(V) == CHOOSE v \in V : \A u \in V : v >= u
\* place of v between the least and the greatest value, in 256 steps
Index(v, V) == LET lo == Lowest(V)  hi == Highest(V)
               IN IF v = hi THEN 255 ELSE ((v - lo) * 256) \div (hi - lo)
Paints(layers, c, i) == IF layers[i] = "cmap" THEN c.v[i] # NV ELSE c.v[i] = 1
\* flags lie over all colour maps, later layers over earlier ones
Above(layers, i, j) == \/ layers[i] = "flag" /\ layers[j] = "cmap"
                       \/ layers[i] = layers[j] /\ i > j
Top(layers, c) == LET P == {i \in 1 .. Len(layers) : Paints(layers, c, i)}
                  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P \ {i} : Above(layers, i, j)
\* the colours a cell may have: a variable that is the same everywhere may have any one
\* colour of the map (Constant below); an index may be off by one, for rounding
Constant(S, i) == Cardinality(Vals(S, i)) = 1
Colours(layers, S, c) ==
    LET i == Top(layers, c)
    IN  CASE i = 0 -> {Bare}
          [] i > 0 /\ layers[i] = "flag" -> {<<i, 1>>}
          [] i > 0 /\ layers[i] = "cmap" ->
                IF Constant(S, i) THEN {<<i, k>> : k \in 0 .. 255}
                ELSE LET k == Index(c.v[i], Vals(S, i)) IN {<<i, j>> : j \in {k - 1, k, k + 1} \cap (0 .. 255)}
=============================================================================
