------------------------------- MODULE MC_C09 -------------------------------
(* C09: transport and further properties of every single-phase state, from every pair. *)
EXTENDS Checks
D == Scale(16, 60)
PP == SinglePairs
S_ == PTs(Inside \union Lines \union {"litp", "litt"}) \union Directs(PP \ {"pt"}, {"box"})
O_ == Further
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == WhereIs(f, Point(f, i_, j_, D))
P_(f, i_, j_, r) == TRUE
A_(f, i_, j_, r) == EveryPair(f, Point(f, i_, j_, D), r, PP, O_)
=============================================================================
