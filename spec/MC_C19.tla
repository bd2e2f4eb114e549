------------------------------- MODULE MC_C19 -------------------------------
(* C19: inputs outside the domain of IF97 are rejected, with the code of what is wrong. *)
EXTENDS Checks
D == Scale(70, 300)
PP == Pairs
S_ == PTs({"out", "low", "r5", "r2", "r3", "edgep", "edgeT", "corner", "litp", "litt"}) \union Wets({"wet", "wetT"}) \union Directs(PP \ {"pt"}, {"box", "out", "lit1", "lit2"})
O_ == AllIds
DD(f) == IF f[2] \in {"lit1", "lit2"} THEN Scale(24, 120) ELSE D
R_(f) == RowsOf(f, DD(f))
C_(f) == ColsOf(f, DD(f))
W_(f, i_, j_) == WhereIs(f, Point(f, i_, j_, DD(f)))
P_(f, i_, j_, r) == TRUE

Ids(n) == {OV, OX, OR, (n * 7) % 36, (n * 5 + 11) % 36}
A_(f, i_, j_, r) ==
  LET q == Point(f, i_, j_, DD(f)) IN
  IF f[1] = "wet" THEN \* wet steam is inside the domain
       Known4(q[1], q[2]) /\ EveryPair(f, q, r, {"pv", "ph", "ps", "px", "tx"}, {OV, OT} )
  ELSE IF f[1] # "pt" THEN Request(f[1], q[1], q[2], Ids(i_ + j_) \ Echo(f[1]))
  ELSE IF r > 0
  THEN \* inside the domain no pair rejects it
       (r \in {1, 2, 3, 5} /\ (i_ + j_) % Scale(4, 1) = 0) =>
         Known5(q[1], q[2], r) /\
         (LET S == At(r, q[1], q[2]) IN
          \A pair \in SinglePairs : (LET a == Fwd(pair, q[1], q[2], S) IN Single(pair, a[1], a[2], {OV})))
  ELSE ~(r < 0) \/ (\* neither through (p,t) nor through any pair that starts with p or t
         /\ Claim("pt/code", Eq(Ask("pt", q[1], q[2], OR), r) \/ MayBe("pt", ToInt(Ask("pt", q[1], q[2], OR)), q[1], q[2]), <<q[1], q[2], r, Ask("pt", q[1], q[2], OR)>>)
         /\ \A o \in Ids(i_ + j_) : MayBe("pt", 4, q[1], q[2]) \/ Single("pt", q[1], q[2], {o} \ {OP, OT}))
=============================================================================
