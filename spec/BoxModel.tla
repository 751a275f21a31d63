------------------------------- MODULE BoxModel -------------------------------
(* All boxes on a small lattice, valid or not.  Checked: the quarters of a    *)
(* proper box tile it, have equal size, and halving is compatible with        *)
(* turning the globe.  The boxes are emitted and replayed into the real       *)
(* program (ConfTrace).                                                       *)
EXTENDS Conf, TLC, Json
CONSTANTS Circle,      \* lattice units of the full circle (a multiple of 4)
          Lat          \* latitudes -Lat .. Lat

VARIABLE box
Half == Circle \div 2
Init == /\ box \in [s : (-Lat) .. Lat, n : (-Lat) .. Lat, w : (-Half - 1) .. (Half + 1), e : (-Half - 1) .. (Half + 1)]
        /\ (BoxValid(box, Circle) => BoxProper(box, Circle))
Next == UNCHANGED box
BoxSpec == Init /\ [][Next]_box

Fine == [s |-> 4 * box.s, n |-> 4 * box.n, w |-> 4 * box.w, e |-> 4 * box.e]
Ring == 4 * Circle
Base(r) == [x |-> r.x, y |-> r.y, w |-> r.w, h |-> r.h, nx |-> 1, ny |-> 1]
QuartersTile == BoxValid(box, Circle) =>
    LET r == BoxRect(Fine, Ring)  Q == Quarters(r, Ring)
    IN  /\ Cardinality(Q) = 4 /\ Tiles(Q, Base(r), Ring)
        /\ \A q \in Q : 4 * Area(q) = Area(r)
WidthRange == BoxValid(box, Circle) => Width(box, Circle) \in 1 .. Circle
TurnInvariant == BoxValid(box, Circle) =>
    LET r == BoxRect(Fine, Ring)
        turn(q) == [q EXCEPT !.x = Norm(q.x + 4, Ring)]
    IN  Quarters(turn(r), Ring) = {turn(q) : q \in Quarters(r, Ring)}
Emit == PrintT(<<"BOX", box.s, box.n, box.w, box.e>>)
=============================================================================
