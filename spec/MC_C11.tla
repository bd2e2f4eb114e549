------------------------------- MODULE MC_C11 -------------------------------
(* C11: the region of every pair, and its agreement with (p,t). *)
EXTENDS Checks
D == Scale(28, 150)
PP == SinglePairs \ {"pt"}
S_ == PTs(AllPT \ {"out", "low"}) \union Wets({"wet", "wethi", "wettop", "wetT"}) \union Directs(PP, {"box", "lit1", "lit2"})
O_ == {OX}
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == WhereIs(f, Point(f, i_, j_, D))
P_(f, i_, j_, r) == TRUE
\* well inside its region, so that the small gaps IF97 leaves between its equations do not matter
Inner(p, T, r) == \A d \in {"0.003", "-0.003"} : RegionPT(p * (1 + d), T, 0) = r /\ RegionPT(p, T + 130 * d, 0) = r
\* (p,v) and (t,s) do not determine the state of liquid near its maximum of density, nor (t,h) that of hot liquid
Unique(pair, T, r) == ~(r = 1 /\ ((T < 284 /\ pair \in {"pv", "ts"}) \/ (T > 523 /\ pair = "th")))
A_(f, i_, j_, r) ==
  LET q == Point(f, i_, j_, D) IN
  IF f[1] = "wet" THEN Known4(q[1], q[2]) /\ EveryPair(f, q, r, PP, O_)
  ELSE IF f[1] # "pt" THEN Single(f[1], q[1], q[2], O_)
  ELSE r \in {1, 2, 3, 5} =>
         Known5(q[1], q[2], r) /\
         (LET S == At(r, q[1], q[2])
              inner == f[2] \in Inside /\ Inner(q[1], q[2] + K0, r)
          IN
          \A pair \in PP :
            LET a == Fwd(pair, q[1], q[2], S) IN
            /\ Single(pair, a[1], a[2], O_)
            /\ (~inner \/ ~Unique(pair, q[2] + K0, r)
                \/ Claim(<<"same region", pair, r>>, Eq(Ask(pair, a[1], a[2], OR), r), <<pair, q[1], q[2], "is in region", r, a[1], a[2], Ask(pair, a[1], a[2], OR)>>)))
=============================================================================
