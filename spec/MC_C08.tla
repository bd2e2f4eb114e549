------------------------------- MODULE MC_C08 -------------------------------
(* C08: the derived properties of every single-phase state, from every pair. *)
EXTENDS Checks
D == Scale(16, 60)
PP == SinglePairs
S_ == PTs(Inside \union Lines \union {"litp", "litt"}) \union Directs(PP \ {"pt"}, {"box"})
O_ == Derived
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == WhereIs(f, Point(f, i_, j_, D))
P_(f, i_, j_, r) == TRUE
A_(f, i_, j_, r) == EveryPair(f, Point(f, i_, j_, D), r, PP, O_)
=============================================================================
