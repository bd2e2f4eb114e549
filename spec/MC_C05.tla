------------------------------- MODULE MC_C05 -------------------------------
(* C05: (p,v), (t,v), (t,h), (t,s) - the inversion of the equations of state. *)
EXTENDS Walk
D == Scale(24, 100)
PP == {"pv", "tv", "th", "ts"}
S_ == PTs(Inside \union Lines) \union Directs(PP, {"box", "lit1", "lit2", "lit12"})
O_ == {OP, OT, OV, OD, OH, OS, OX}
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == IF f[1] = "pt" THEN LET q == Point(f, i_, j_, D) IN RegionPT(q[1], q[2] + K0, 0) ELSE 0
P_(f, i_, j_, r) == TRUE
A_(f, i_, j_, r) ==
  LET q == Point(f, i_, j_, D) IN
  IF f[1] = "pt"
  THEN r \in {1, 2, 3, 5} =>
         (LET S == At(r, q[1], q[2]) IN
          \A pair \in PP : (LET a == Fwd(pair, q[1], q[2], S) IN Single(pair, a[1], a[2], O_)))
  ELSE Single(f[1], q[1], q[2], O_)
=============================================================================
