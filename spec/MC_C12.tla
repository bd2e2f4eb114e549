------------------------------- MODULE MC_C12 -------------------------------
(* C12: dispatch - echoed inputs, unknown properties, named regions. *)
EXTENDS Checks
D == Scale(14, 50)
PP == Pairs
S_ == PTs(Inside \union Lines \union {"out", "low"}) \union Wets({"wet", "wethi", "wettop"}) \union Directs(Pairs \ {"pt"}, {"box"})
O_ == AllIds
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == WhereIs(f, Point(f, i_, j_, D))
P_(f, i_, j_, r) == TRUE

Unknown == {-1000, -17, -1, 36, 37, 38, 50, 99, 255, 256, 1000, 65536, 2147483647}
Alike(a, b) == Bits(a, b) \/ (IsNum(a) /\ IsNum(b) /\ Abs(a - b) \leq "1e-10" * Abs(a))
Sweep == (-300 .. 700) \union UNION {{Pow2(k) - 1, Pow2(k), Pow2(k) + 1, -Pow2(k), 4 - Pow2(k), Pow2(k) + 4} : k \in 10 .. 30}
Dispatch(pair, a, b, n) ==
  LET o1 == First(pair)  o2 == Second(pair)
      outside == pair \in MixPairs /\ ~InMix(pair, a, b)
      e1 == Ask(pair, a, b, o1)  e2 == Ask(pair, a, b, o2)
  IN  \* the inputs come back as they were given
      /\ Claim(<<pair, "echo">>, IF outside /\ pair # "tx" THEN Eq(e1, INVALID_VALUE) /\ Eq(e2, INVALID_VALUE)
                                 ELSE Bits(e1, a) /\ Bits(e2, b), <<pair, a, b, e1, e2>>)
      \* a property there is none of
      /\ \A o \in (IF n = 0 THEN Sweep \ AllIds ELSE Unknown) :
           LET c == Ask(pair, a, b, o)
               r == IF pair \in SinglePairs THEN Ask(pair, a, b, OR) ELSE 4
           IN  Claim(<<pair, "unknown">>,
                 IF pair \in MixPairs THEN Eq(c, INVALID_OUTID) \/ (Eq(c, INVALID_VALUE) /\ (outside \/ pair \in {"hx", "sx"}))
                 ELSE IF r < 0 THEN Eq(c, r) ELSE Eq(c, INVALID_OUTID) \/ (pair = "pt" /\ Eq(r, 4) /\ Eq(c, INVALID_VALUE)),
                 <<pair, a, b, o, "answered", c, "region", r>>)
      \* naming the region the input lies in, or none (10), changes nothing
      /\ ~(pair \in SinglePairs) \/
           (LET r == ToInt(Ask(pair, a, b, OR)) IN
            \A o \in O_ :
              LET c == Ask(pair, a, b, o) IN
              /\ ((n + o) % 3 # 0) \/ Claim(<<pair, "region none">>, Alike(c, CallR(pair, a, b, o, 10)), <<pair, a, b, o, c, CallR(pair, a, b, o, 10)>>)
              /\ ~(r \in 1 .. 5) \/ Claim(<<pair, "named region">>, Alike(c, CallR(pair, a, b, o, r)), <<pair, a, b, o, c, CallR(pair, a, b, o, r), "region", r>>))
\* a region that is named is used, whatever region the input lies in: pt answers with the equation of that region
Foreign(p, t) ==
  \A r \in {1, 2, 5} :
    LET S == GState(r, p, t + K0) IN
    /\ Claim("foreign/region", Eq(CallR("pt", p, t, OR, r), r) /\ Eq(CallR("pt", p, t, OX, r), IF r = 1 THEN 0 ELSE 1), <<p, t, r>>)
    /\ \A o \in Basic : (LET c == CallR("pt", p, t, o, r) IN
         Claim(<<"foreign", r>>, Agrees(Value(o, S), c), <<"pt", p, t, o, "region", r, "answered", c, "specified", Value(o, S)>>))
\* so do the other pairs: the state they report is one of the named region's equation, and all answers are that state's
ForeignPair(pair, a, b, q) ==
  LET T == IF First(pair) = OT THEN a + K0 ELSE CallR(pair, a, b, OT, q) + K0
      p == IF First(pair) = OP THEN a ELSE CallR(pair, a, b, OP, q)
      d == IF Second(pair) = OV THEN 1 / b ELSE CallR(pair, a, b, OD, q)
      S == IF q = 3 THEN HState(T, d) ELSE GState(q, p, T)
  IN  /\ Claim(<<pair, "foreign/region">>, Eq(CallR(pair, a, b, OR, q), q) /\ Eq(CallR(pair, a, b, OX, q), Quality1(q)), <<pair, a, b, q>>)
      /\ (IsNum(T) /\ IsNum(p) /\ IsNum(d) /\ In(T, K0, T2273) /\ In(p, "0.01", 100) /\ In(d, "0.01", 1100)) =>
           \A o \in {OV, OH, OS, OU, OCP, OW} \ Echo(pair) :
             LET c == CallR(pair, a, b, o, q) IN
             Claim(<<pair, "foreign", q>>, Agrees(Value(o, S), c), <<pair, a, b, o, "region", q, "answered", c, "specified", Value(o, S)>>)
Others(r) == CASE r = 1 -> {2, 3, 5} [] r = 2 -> {1, 3, 5} [] r = 3 -> {1, 2, 5} [] r = 5 -> {1, 2, 3}
A_(f, i_, j_, r) ==
  LET q == Point(f, i_, j_, D) IN
  CASE f[1] = "pt" ->
         (/\ Dispatch("pt", q[1], q[2], i_ + j_)
          /\ ~(r \in {1, 2, 3} /\ q[1] \leq 30 /\ "0.01" < q[1]) \/ Foreign(q[1], q[2])
          /\ ~(r \in {1, 2, 3, 5}) \/ (LET S == At(r, q[1], q[2]) IN
               \A pair \in SinglePairs \ {"pt"} : (LET a == Fwd(pair, q[1], q[2], S) IN
                 Dispatch(pair, a[1], a[2], i_ + j_) /\ (\A n \in Others(r) : ForeignPair(pair, a[1], a[2], n)))))
    [] f[1] = "wet" ->
         (LET T == q[1] + K0  p == Exact(Psat(T)) IN
          \A pair \in Pairs \ {"pt"} : (LET a == FwdWet(pair, p, q[1], LiqT(T), VapT(T), q[2]) IN Dispatch(pair, a[1], a[2], i_ + j_)))
    [] OTHER -> Dispatch(f[1], q[1], q[2], i_ + j_)
=============================================================================
