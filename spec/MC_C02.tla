------------------------------- MODULE MC_C02 -------------------------------
(* C02: the region every (p,t) is placed in, or the code it is rejected with. *)
EXTENDS Walk
D == Scale(160, 500)
S_ == PTs(AllPT)
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == LET q == Point(f, i_, j_, D) IN RegionPT(q[1], q[2] + K0, 0)
P_(f, i_, j_, r) == TRUE
A_(f, i_, j_, r) == LET q == Point(f, i_, j_, D) IN Single("pt", q[1], q[2], {OV, OX})
=============================================================================
