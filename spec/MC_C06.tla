------------------------------- MODULE MC_C06 -------------------------------
(* C06: the saturation line: saturated liquid and steam, Tsat and psat. *)
EXTENDS Checks
D == Scale(64, 300)
PP == {"px", "tx"}
S_ == Wets({"wet", "wethi", "wettop", "wetT", "wetlitp"}) \union Directs(PP, {"box", "lit1"})
O_ == AllIds
\* x is 0 and 1, whatever the family says: where the first number does not depend on the column, one column is enough
DD(f) == IF f[2] \in {"wet", "wethi", "wettop", "box"} THEN D * D ELSE D
R_(f) == RowsOf(f, DD(f))
C_(f) == CASE f[2] \in {"wet", "wethi", "wettop", "box", "lit1"} -> 1 [] f[2] = "wetT" -> NL [] OTHER -> ColsOf(f, DD(f))
Q_(f, i_, j_) == Point(f, i_, j_, DD(f))
W_(f, i_, j_) == WhereIs(f, Q_(f, i_, j_))
P_(f, i_, j_, r) == TRUE
\* the critical point itself: one state, whichever end of the line it is reached from
Critical ==
  \A x \in {0, 1} : \A r \in { <<"tx", Tc - K0>>, <<"px", pc>> } :
    LET Is(o, y, tol) == o \in Echo(r[1]) \/ Claim(<<r[1], "critical point">>, Abs(Ask(r[1], r[2], x, o) - y) \leq tol, <<r[1], r[2], x, o, "answered", Ask(r[1], r[2], x, o), "specified", y>>)
    IN  /\ Is(OP, pc, "1e-6") /\ Is(OT, Tc - K0, "1e-5") /\ Is(OD, 322, "1e-9") /\ Is(OV, 1 / 322, "1e-12")
        /\ Is(OH, hcrit, "1e-4") /\ Is(OS, sc, "1e-6") /\ Is(OU, hcrit - (1000 * pc) / 322, "1e-4")
\* (p or t, x = 0 and 1): every property, and the two lines agree on where the saturation line is
A_(f, i_, j_, r) ==
  LET q == Q_(f, i_, j_) IN
  (i_ = 0 => Critical) /\
  IF f[1] # "wet" THEN \A x \in {0, 1} : Request(f[1], q[1], x, O_)
  ELSE LET t == q[1]
           p == Exact(Psat(t + K0))
           p1 == Ask("tx", t, 0, OP)
           t1 == Ask("px", p, 0, OT)
       IN  /\ \A x \in {0, 1} : Request("tx", t, x, O_) /\ Request("px", p, x, O_)
           /\ (K0 \leq t + K0 /\ t + K0 \leq Tc) =>
                /\ Claim("sat/p", Agrees(Psat(t + K0), p1) /\ Bits(p1, Ask("tx", t, 1, OP)), <<t, p1>>)
                /\ (p \geq pmin /\ p \leq pc) => Claim("sat/T", Agrees(Tsat(p) - K0, t1) /\ Bits(t1, Ask("px", p, 1, OT)), <<p, t1>>)
                /\ (p \geq pmin /\ p \leq pc) => Claim("sat/inverse", Abs(t1 - t) < "2e-8", <<t, "through", p, t1>>)
=============================================================================
