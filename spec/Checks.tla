-------------------------------- MODULE Checks --------------------------------
(***************************************************************************)
(* What the checks share: how a point of a family becomes requests.        *)
(***************************************************************************)
EXTENDS Walk
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Near0(x, y, tol) == IsNum(x) /\ IsNum(y) /\ Abs(x - y) \leq tol
\* the region of a point of the (p,t) plane; wet states are region 4; direct requests are placed when answered
WhereIs(f, q) == CASE f[1] = "pt" -> RegionPT(q[1], q[2] + K0, 0) [] f[1] = "wet" -> 4 [] OTHER -> 0

\* a state of region 5 away from its edges is one for (h,s) too
Inside5(p, t) == \A d \in {"1e-5", "-1e-5"} : RegionPT(p * (1 + d), t + K0 + 500 * d, 0) = 5 /\ RegionPT(p * (1 + d), t + K0 - 500 * d, 0) = 5
Known5(p, t, r) ==
  (r = 5 /\ Inside5(p, t)) =>
    (LET S == At(5, p, t)  a == Fwd("hs", p, t, S)  c == Ask("hs", a[1], a[2], OR) IN
     Claim(<<"hs", "region 5">>, Eq(c, 5), <<"pt", p, t, "is in region 5", "hs", a[1], a[2], "answered", c>>))
\* a wet state away from the ends is wet for every pair that can name it
Known4(t, x) ==
  (~(t < 0) /\ t < 370 /\ x > "0.05" /\ x < "0.95") =>
    (LET T == t + K0  p == (IF Eq(t, 0) THEN pmin ELSE Exact(Max2(Psat(T), pmin)))  L == SatL(p, T, T \leq T623)  V == SatV(p, T, T \leq T623) IN
     \A pair \in SinglePairs \ {"pt"} : (LET a == FwdWet(pair, p, t, L, V, x)  c == Ask(pair, a[1], a[2], OR) IN
       Claim(<<pair, "region 4">>, Eq(c, 4), <<"wet at t, x", t, x, pair, a[1], a[2], "answered", c>>)))
\* the same state through each of the pairs PP, or the direct request
EveryPair(f, q, r, PP, O) ==
  IF f[1] = "pt"
  THEN r \in {1, 2, 3, 5} =>
         (LET S == At(r, q[1], q[2]) IN
          \A pair \in PP : (LET a == Fwd(pair, q[1], q[2], S) IN Request(pair, a[1], a[2], O)))
  ELSE IF f[1] = "wet" THEN
         (LET T == q[1] + K0
              p == Exact(Psat(T))
              Tp == Tsat(p)
              low == T \leq T623
          IN  NearCritT(T) \/
              (\A pair \in PP :
                 LET a == (IF First(pair) = OP THEN FwdWet(pair, p, q[1], SatL(p, Tp, p \leq ps623), SatV(p, Tp, p \leq ps623), q[2])
                           ELSE FwdWet(pair, p, q[1], SatL(Psat(T), T, low), SatV(Psat(T), T, low), q[2]))
                 IN  Request(pair, a[1], a[2], O)))
  ELSE Request(f[1], q[1], q[2], O)

\* arguments no physical state has, and the ends of the number range
Wild == << NaN, Inf, -Inf, 0, Exact(-(0)), "4.9e-324", "-4.9e-324", "1e-300", "1e-30", "1e-8", "1e-6", 1, 10, 100, 300, "373.946", 647, 1000, 2500, 5000, "1e6", "1e30", "1.7e308",
           "-1e-8", "-1", -273, "-273.15", "-273.16", "-1e5", "-1e300", "273.15", "22.064", "0.000611212677444", "16.5291642526045", "0.5", "1.0000000001", "2147483648", "4294967296" >>
NW == Size(Wild)
\* families with "wild" among them: every combination of two of those
RowsA(f, d) == IF f[2] = "wild" THEN NW ELSE RowsOf(f, d)
ColsA(f, d) == IF f[2] = "wild" THEN NW ELSE ColsOf(f, d)
PointA(f, i_, j_, d) == IF f[2] = "wild" THEN <<Wild[i_ + 1], Wild[j_ + 1]>> ELSE Point(f, i_, j_, d)

(* The same function compiled twice may round an intermediate result differently, and a boundary between two regions, *)
(* or the end of an iteration, then falls differently.  An answer is the function's if it is the same number, or, where *)
(* equations meet, the function's number at arguments 1e-12 away.  (The limits of x, and of a with x, are compared with  *)
(* as they are written: there only the same arguments count.)  Fun(a, b) is the function.                                    *)
Close(x, y) == IsNum(x) /\ IsNum(y) /\ Abs(x - y) \leq "1e-7" * Abs(y) + "1e-12"
\* an input that is asked for comes back bit for bit
EchoAs(pair, o, c, f) == o \in Echo(pair) => Bits(c, f) \/ (Outcome(c) = "nan" /\ Outcome(f) = "nan")
AsFunction(pair, c, a, b, Fun(_, _)) ==
  \/ Bits(c, Fun(a, b))
  \/ Close(c, Fun(a, b))
  \/ pair \notin MixPairs /\ (\E d \in {"1e-12", "-1e-12", "0"} : \E e \in {"1e-12", "-1e-12", "0"} : Close(c, Fun(Exact(a * (1 + d)), Exact(b * (1 + e)))))

(* the requests, as tuples of <<pair, a, b>>, that a point of any family stands for *)
Requests(f, q, r) ==
  CASE f[1] = "pt" -> (IF r \in {1, 2, 3, 5}
                       THEN LET S == At(r, q[1], q[2]) IN {LET a == Fwd(pair, q[1], q[2], S) IN <<pair, a[1], a[2]>> : pair \in SinglePairs}
                       ELSE {<<"pt", q[1], q[2]>>})
    [] f[1] = "wet" -> (LET T == q[1] + K0  p == Exact(Psat(T)) IN
                        {LET a == FwdWet(pair, p, q[1], LiqT(T), VapT(T), q[2]) IN <<pair, a[1], a[2]>> : pair \in Pairs \ {"pt"}})
    [] OTHER -> {<<f[1], q[1], q[2]>>}
=============================================================================
