------------------------------- MODULE Compare -------------------------------
(* What differs between two mesh files (P24).                                 *)
(* A mesh: [cells |-> function from geometries to functions from attribute    *)
(* names (id among them) to values, graph |-> function from ids to functions  *)
(* from directions to sequences of ids].                                      *)
(* A value: num (s sign, m seven digits, e exponent: s * m * 10^e; s = 0 is   *)
(* nought), nan, inf (s), text (v), flag (v), list (v: sequence of num).      *)
EXTENDS Integers, Sequences, FiniteSets

\* four significant digits
Round4(x) == IF x.s = 0 THEN <<0, 0, 0>>
             ELSE LET q == (x.m + 500) \div 1000
                  IN  IF q = 10000 THEN <<x.s, 1000, x.e + 1>> ELSE <<x.s, q, x.e>>
Tie(x) == x.s # 0 /\ x.m % 1000 = 500

Same(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "num"  -> Round4(a) = Round4(b)
         [] a.k = "nan"  -> TRUE
         [] a.k = "inf"  -> a.s = b.s
         [] a.k = "list" -> Len(a.v) = Len(b.v) /\ \A i \in 1 .. Len(a.v) : Round4(a.v[i]) = Round4(b.v[i])
         [] OTHER        -> a.v = b.v

Geoms(m) == DOMAIN m.cells
Names(m) == UNION {DOMAIN m.cells[g] : g \in Geoms(m)}
Nan == [k |-> "nan"]
Val(m, g, n) == IF n \in DOMAIN m.cells[g] THEN m.cells[g][n] ELSE Nan
Common(a, b) == Geoms(a) \cap Geoms(b)

\* cells of the second mesh that the first does not have
NewCells(a, b) == Geoms(b) \ Geoms(a)
\* common cells whose values of the attributes known to both meshes differ
ValueDiff(a, b) == {g \in Common(a, b) : \E n \in Names(a) \cap Names(b) : ~Same(Val(a, g, n), Val(b, g, n))}
\* common cells that do not carry the same attributes
AttrDiff(a, b) == {g \in Common(a, b) : DOMAIN a.cells[g] # DOMAIN b.cells[g]}
\* cells of the second mesh whose id is known to both and that have other neighbours there
Rng(q) == {q[i] : i \in 1 .. Len(q)}
Count(q, x) == Cardinality({i \in 1 .. Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Rng(p) : Count(p, x) = Count(q, x)
SameNeighbours(p, q) == DOMAIN p = DOMAIN q /\ \A d \in DOMAIN p : SameBag(p[d], q[d])
IdOf(m, g) == m.cells[g].id.v
GraphDiff(a, b) == {g \in Geoms(b) : LET i == IdOf(b, g)
                                     IN  i \in DOMAIN a.graph /\ i \in DOMAIN b.graph /\ ~SameNeighbours(a.graph[i], b.graph[i])}
=============================================================================
