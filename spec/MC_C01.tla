------------------------------- MODULE MC_C01 -------------------------------
(* C01: the basic properties of every single-phase state, from (p,t). *)
EXTENDS Walk
D == Scale(60, 240)
S_ == PTs(Inside \union Lines \union Lits)
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == LET q == Point(f, i_, j_, D) IN RegionPT(q[1], q[2] + K0, 0)
P_(f, i_, j_, r) == TRUE
A_(f, i_, j_, r) == LET q == Point(f, i_, j_, D) IN Single("pt", q[1], q[2], Basic)
=============================================================================
