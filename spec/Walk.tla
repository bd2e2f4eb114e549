--------------------------------- MODULE Walk ---------------------------------
(***************************************************************************)
(* The life of a request.  An idle interface receives a request (a point   *)
(* of one of the families of module Points), places it in a region, and    *)
(* answers it.  TLC explores every request of every family; the actions    *)
(* Place and Answer are taken in lock step with the implementation (module *)
(* Lib), and the invariants Placed and Answered say what it may have done. *)
(***************************************************************************)
EXTENDS Verification, Points
CONSTANTS Strata,               \* the families a check explores
          Rows(_), Cols(_),     \* their sizes
          Where(_, _, _),       \* the region the specification gives point (s, i, j)
          OnPlaced(_, _, _, _), \* what the implementation has to do when it places it
          OnAnswered(_, _, _, _)\* ... and when it answers it, with the region as argument
VARIABLES stage, st, i, j, reg
vars == <<stage, st, i, j, reg>>
Init == stage = "idle" /\ st = <<"none", "none">> /\ i = 0 /\ j = 0 /\ reg = 0
Receive == /\ stage = "idle"
           /\ \E s \in Strata : \E a \in 0 .. (Rows(s) - 1) : st' = s /\ i' = a
           /\ stage' = "open" /\ UNCHANGED <<j, reg>>
Placing == /\ stage = "open"
           /\ \E b \in 0 .. (Cols(st) - 1) : j' = b /\ reg' = Where(st, i, b)
           /\ stage' = "placed" /\ UNCHANGED <<st, i>>
Answer == /\ stage = "placed" /\ stage' = "answered" /\ UNCHANGED <<st, i, j, reg>>
Next == Receive \/ Placing \/ Answer
Placed == stage = "placed" => OnPlaced(st, i, j, reg)
Answered == stage = "answered" => Seen("behaviour") /\ OnAnswered(st, i, j, reg)
TypeOK == /\ stage \in {"idle", "open", "placed", "answered"}
          /\ st \in Strata \union {<<"none", "none">>}
          /\ stage \in {"idle", "open"} => reg = 0
=============================================================================
