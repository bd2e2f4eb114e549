------------------------------- MODULE MC_C07 -------------------------------
(* C07: wet steam, from every pair that can name it. *)
EXTENDS Checks
D == Scale(22, 90)
PP == Pairs \ {"pt"}
S_ == Wets({"wet", "wethi", "wettop", "wetT", "wetlitp", "wetlitx"}) \union Directs(MixPairs, {"box", "lit1", "lit2"})
O_ == Mixture \union {OP, OT, OX, OR, OCP, OW, ODV, OST}
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == WhereIs(f, Point(f, i_, j_, D))
P_(f, i_, j_, r) == TRUE
\* (h,x) and (s,x) search the line anew for every property: few of them, except at some of the points
Few == {OT, OV, OS, OE}
A_(f, i_, j_, r) ==
  LET q == Point(f, i_, j_, D) IN
  IF f[1] = "wet"
  THEN /\ EveryPair(f, q, r, PP \ {"hx", "sx"}, O_)
       /\ EveryPair(f, q, r, {"hx", "sx"}, IF (i_ + j_) % Scale(16, 2) = 0 THEN O_ ELSE Few)
  ELSE EveryPair(f, q, r, PP, IF (i_ + j_) % Scale(16, 2) = 0 THEN O_ ELSE Few)
=============================================================================
