------------------------------- MODULE MC_C04 -------------------------------
(* C04: (h,s). *)
EXTENDS Checks
D == Scale(40, 160)
PP == {"hs"}
S_ == PTs(Inside \union Lines \union {"litp"}) \union Wets({"wet", "wethi", "wettop"}) \union Directs(PP, {"box", "lit1", "lit2", "lit12"})
O_ == {OP, OT, OV, OD, OH, OS, OU, OCP, OCV, OW, OX}
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == IF f[1] = "pt" THEN LET q == Point(f, i_, j_, D) IN RegionPT(q[1], q[2] + K0, 0) ELSE IF f[1] = "wet" THEN 4 ELSE 0
P_(f, i_, j_, r) == TRUE
A_(f, i_, j_, r) ==
  LET q == Point(f, i_, j_, D) IN
  IF f[1] = "pt"
  THEN r \in {1, 2, 3, 5} =>
         Known5(q[1], q[2], r) /\
         (LET S == At(r, q[1], q[2]) IN
          \A pair \in PP : (LET a == Fwd(pair, q[1], q[2], S) IN Single(pair, a[1], a[2], O_)))
  ELSE IF f[1] = "wet" THEN EveryPair(f, q, r, PP, O_)
  ELSE Single(f[1], q[1], q[2], O_)
=============================================================================
