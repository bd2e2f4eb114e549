--------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The public interface: twelve functions of an input pair and a property  *)
(* identifier.  This module says what each call has to answer.             *)
(*                                                                         *)
(* A request (pair, a, b) is placed in a region, solved for the state, and *)
(* every property is then answered from that one state.  Where IF97 gives  *)
(* an explicit equation for the solution, the answer is that equation's    *)
(* value down to rounding noise.  Where the solution has to be iterated,   *)
(* the answer is specified by what it must satisfy: the state found must   *)
(* reproduce the inputs, and all properties must be those of that state.   *)
(***************************************************************************)
EXTENDS Regions, Lib

SinglePairs == {"pt", "ph", "ps", "hs", "pv", "tv", "th", "ts"}
MixPairs == {"px", "tx", "hx", "sx"}
Pairs == SinglePairs \union MixPairs
First(pair) == CASE pair \in {"pt", "ph", "ps", "pv", "px"} -> OP
                 [] pair \in {"tv", "th", "ts", "tx"} -> OT
                 [] pair \in {"hs", "hx"} -> OH
                 [] pair = "sx" -> OS
Second(pair) == CASE pair = "pt" -> OT
                  [] pair \in {"ph", "th"} -> OH
                  [] pair \in {"ps", "hs", "ts"} -> OS
                  [] pair \in {"pv", "tv"} -> OV
                  [] pair \in MixPairs -> OX
Echo(pair) == {First(pair), Second(pair)}

\* some choice among the classifications and branches that rounding leaves open
Some(P(_)) == P(0) \/ P(1) \/ P(-1)
Ask(pair, a, b, o) == Call(pair, a, b, o)
Code(c) == \E e \in ErrorCodes : Eq(c, e)

-----------------------------------------------------------------------------
(* saturated states, from the pressure or from the temperature *)
SatL(p, T, low) == IF low THEN GState(1, p, T) ELSE HState(T, 1 / vSatL3(p, T))
SatV(p, T, low) == IF low THEN GState(2, p, T) ELSE HState(T, 1 / vSatV3(p, T))
LiqP(p) == SatL(p, Tsat(p), p \leq ps623)
VapP(p) == SatV(p, Tsat(p), p \leq ps623)
LiqT(T) == SatL(Psat(T), T, T \leq T623)
VapT(T) == SatV(Psat(T), T, T \leq T623)

(* the mixture of saturated liquid L and vapour V with vapour fraction x: extensive *)
(* quantities mix by mass, density is the reciprocal of the volume                  *)
MixValue(o, L, V, x) ==
  IF o = OD THEN 1 / (L[3] + x * (V[3] - L[3]))
  ELSE LET l == Value(o, L) IN l + x * (Value(o, V) - l)

-----------------------------------------------------------------------------
(* placement: the regions (or error code) an input may be given *)
Place(pair, a, b, k) ==
  CASE pair = "pt" -> RegionPT(a, b + K0, k)
    [] pair = "ph" -> RegionPH(a, b, k)
    [] pair = "ps" -> RegionPS(a, b, k)
    [] pair = "hs" -> RegionHS14(a, b, k)
    [] pair = "pv" -> RegionPV(a, b, k)
    [] pair = "tv" -> RegionTV(a + K0, b, k)
    [] pair = "ts" -> RegionTS(a + K0, b, k)
\* at the lowest pressure the liquid is one state, at 273.15 K: noise may leave it between its neighbours
ColdCorner(pair, r, p, y) ==
  pair \in {"ph", "ps", "pv"} /\ r \in {1, 4, INVALID_VALUE} /\ Abs(p / pmin - 1) < "1e-12"
  /\ (LET lo == CASE pair = "ph" -> h1(p, K0) [] pair = "ps" -> s1(p, K0) [] pair = "pv" -> v1(p, K0)
      IN  Le(y, lo, 1) /\ Le(lo, y, 1))
MayBe(pair, r, a, b) ==
  IF ColdCorner(pair, r, a, b) THEN TRUE
  ELSE IF pair = "th" THEN Some(LAMBDA k : r \in RegionsTH(a + K0, b, k))
  ELSE Some(LAMBDA k : r = Place(pair, a, b, k))

(* the solution is explicit / has to be iterated *)
Explicit(pair, r) ==
  \/ pair = "pt"
  \/ pair \in {"ph", "ps", "hs"} /\ r \in {1, 2, 3}
  \/ pair = "tv" /\ r = 3

\* explicit single-phase state of (pair, a, b) in region r
State(pair, r, a, b, k) ==
  CASE pair = "pt" -> IF r = 3 THEN HState(b + K0, 1 / V3(a, b + K0, k)) ELSE GState(r, a, b + K0)
    [] pair = "ph" -> (CASE r = 1 -> GState(1, a, T1ph(a, b))
                         [] r = 2 -> GState(2, a, T2ph(a, b, k))
                         [] r = 3 -> HState(T3ph(a, b, k), 1 / v3ph(a, b, k)))
    [] pair = "ps" -> (CASE r = 1 -> GState(1, a, T1ps(a, b))
                         [] r = 2 -> GState(2, a, T2ps(a, b))
                         [] r = 3 -> HState(T3ps(a, b), 1 / v3ps(a, b)))
    [] pair = "hs" -> (CASE r = 1 -> (LET p == p1hs(a, b) IN GState(1, p, T1ph(p, a)))
                         [] r = 2 -> (LET p == p2hs(a, b, k) IN GState(2, p, T2ph(p, a, k)))
                         [] r = 3 -> (LET p == p3hs(a, b) IN HState(T3ph(p, a, k), 1 / v3ph(p, a, k))))
    [] pair = "tv" -> HState(a + K0, 1 / b)
\* (h,s) in region 3 answers the pressure of its backward equation, the rest from (p,h)
Quality1(r) == IF r = 1 THEN 0 ELSE 1                \* the quality reported for a single phase
ValueIn(r, o, S) == CASE o = OR -> r [] o = OX -> Quality1(r) [] OTHER -> Value(o, S)
ExplicitValue(pair, r, a, b, k, o) ==
  IF pair = "hs" /\ r = 3 /\ o = OP THEN p3hs(a, b) ELSE ValueIn(r, o, State(pair, r, a, b, k))

\* the state the implementation reports for an iterated solution
AnsT(pair, a, b) == Ask(pair, a, b, OT) + K0
Reported(pair, r, a, b) ==
  IF r = 3 THEN
    CASE pair = "pv" -> HState(AnsT(pair, a, b), 1 / b)
      [] pair \in {"th", "ts"} -> HState(a + K0, Ask(pair, a, b, OD))
  ELSE
    CASE pair \in {"ph", "ps", "pv"} -> GState(r, a, AnsT(pair, a, b))
      [] pair = "hs" -> GState(r, Ask(pair, a, b, OP), AnsT(pair, a, b))
      [] pair \in {"tv", "th", "ts"} -> GState(r, Ask(pair, a, b, OP), a + K0)

(* An iterated solution stops when the step in the unknown is below 1e-8, or when  *)
(* the given quantity is met within 1e-8.  Miss is how far the state reported is   *)
(* from the inputs, as a multiple of what that leaves (with a factor of six).      *)

Missed(y, yS, slope) == Abs(y - yS) / (6 * eps * (1 + Abs(slope)) + "1e-12" * Abs(y))
MissedV(y, yS, slope) == Abs(y - yS) / (6 * eps * (Max2(y, Abs(slope))) + "1e-12" * Abs(y))
Miss(pair, r, S, a, b) ==
  CASE pair = "pv" /\ r = 3 -> Missed(a, S[1], S[14])
    [] pair = "pv" /\ r = 1 -> MissedV(b, S[3], S[12])
    [] pair = "pv" -> Missed(b, S[3], S[12])
    [] pair = "tv" /\ r = 1 -> MissedV(b, S[3], S[13])
    [] pair = "tv" -> Missed(b, S[3], S[13])
    [] pair = "ph" -> Missed(b, S[4], S[7])
    [] pair = "ps" -> Missed(b, S[5], S[7] / S[2])
    [] pair = "th" /\ r = 3 -> Missed(b, S[4], (1000 * (S[3] - S[2] * S[12])) / (S[13] / (S[3] * S[3])))
    [] pair = "th" -> Missed(b, S[4], 1000 * (S[3] - S[2] * S[12]))
    [] pair = "ts" -> Missed(b, S[5], 1000 * S[12])
    [] pair = "hs" -> Max2(Missed(a, S[4], S[7]), Missed(b, S[5], 1000 * S[12]) / 3)

-----------------------------------------------------------------------------
(* The contract of one answer: m is the specified value.  A number specified *)
(* as NaN has no contract (it cannot occur inside the domain; see SpecSane). *)
Agrees(m, c) == IF IsNum(m) THEN IsNum(c) /\ Same(m, c) ELSE TRUE

\* single-phase: (pair, a, b) in region r, property o
AnswerX(pair, r, a, b, o) ==
  LET c == Ask(pair, a, b, o) IN
  Claim(<<pair, r, "value">>, Some(LAMBDA k : Agrees(ExplicitValue(pair, r, a, b, k, o), c)),
        <<pair, a, b, o, "answered", c, "specified", ExplicitValue(pair, r, a, b, 0, o)>>)
AnswersX(pair, r, a, b, O) ==          \* all of O from one explicit state
  LET S == State(pair, r, a, b, 0) IN
  \A o \in O \ Echo(pair) :
    LET c == Ask(pair, a, b, o)
        m == IF pair = "hs" /\ r = 3 /\ o = OP THEN p3hs(a, b) ELSE ValueIn(r, o, S)
    IN  Claim(<<pair, r, "value">>,
              \/ Agrees(m, c)
              \/ Agrees(ExplicitValue(pair, r, a, b, 1, o), c)
              \/ Agrees(ExplicitValue(pair, r, a, b, -1, o), c),
              <<pair, a, b, o, "answered", c, "specified", m>>)
\* regions 2 and 5 do not quite meet at 1073.15 K: an input between the two is given region 5's end
Gap5(pair, r, S, b) ==
  /\ r = 5 /\ Same(S[2], T1073)
  /\ CASE pair = "ph" -> b < S[4] /\ b > h2(S[1], T1073) - "1e-6"
       [] pair = "ps" -> b < S[5] /\ b > s2(S[1], T1073) - "1e-9"
       [] pair = "pv" -> b < S[3] /\ b > v2(S[1], T1073) * "0.999999999"
       [] OTHER -> FALSE
AnswersR(pair, r, a, b, O) ==          \* all of O from one iterated state
  LET S == Reported(pair, r, a, b)
      m == Miss(pair, r, S, a, b)
  IN  /\ IF (IsNum(m) /\ m \leq 1) \/ Gap5(pair, r, S, b) THEN Claim(<<pair, r, "residual">>, TRUE, <<pair, a, b, m>>)
         ELSE \/ Excused(<<pair, r, "residual">>, <<pair, a, b, m>>)
              \/ Claim(<<pair, r, "residual">>, FALSE, <<pair, a, b, "state", S[1], S[2], S[3], "misses the input by", m>>)
      /\ \A o \in O \ Echo(pair) :
           LET c == Ask(pair, a, b, o)
               n == ValueIn(r, o, S)
           IN  Claim(<<pair, r, "value">>,
                     Agrees(n, c) \/ (pair = "tv" /\ o = OD /\ Agrees(1 / b, c)),
                     <<pair, a, b, o, "answered", c, "specified", n>>)

-----------------------------------------------------------------------------
(* wet steam *)
FromT == {"tv", "th", "ts"}                        \* temperature given
QualityOf(y, id, L, V) == (y - Value(id, L)) / (Value(id, V) - Value(id, L))
\* the answer for property o of a mixture at pressure p, temperature T, of L and V with fraction x
WetValue(o, p, T, L, V, x) ==
  CASE o = OP -> p
    [] o = OT -> T - K0
    [] o \in Mixture -> MixValue(o, L, V, x)
    [] OTHER -> INVALID_OUTID
\* the last place where the equations of the saturation line change, 16.5291642526045 MPa or 623.15 K
\* by the standard: within a few units of 1e-8 either is taken
Strip(p) == "16.52916424" < p /\ p < "16.5291643001"
AtEnd(x) == Same(x, 0) \/ Same(x, 1)
AnswersW(pair, a, b, O) ==
  LET y == IF pair = "hs" THEN a ELSE b
      id == CASE pair = "hs" -> OH [] OTHER -> Second(pair)
      T == IF pair \in FromT THEN a + K0 ELSE IF pair = "hs" THEN AnsT(pair, a, b) ELSE Tsat(a)
      p == IF pair \in FromT \/ pair = "hs" THEN Psat(T) ELSE a
      near == NearCritT(T) \/ NearCritp(p)
      W(hi) == LET L == IF hi THEN HState(T, 1 / vSatL3(p, T)) ELSE GState(1, p, T)
                   V == IF hi THEN HState(T, 1 / vSatV3(p, T)) ELSE GState(2, p, T)
                   x == QualityOf(y, id, L, V)
               IN  <<L, V, x>>
      A == W(IF pair \in FromT \union {"hs"} THEN T > T623 ELSE p > ps623)
      Fits(B, o, c) == LET m == IF o = OX THEN B[3] ELSE IF o = OR THEN 4 ELSE WetValue(o, p, T, B[1], B[2], B[3])
                       IN \/ Agrees(m, c)
                          \/ AtEnd(B[3]) /\ (\/ Agrees(Value(o, B[1]), c) \/ Agrees(Value(o, B[2]), c))
  IN  \/ near \/ Strip(p)
      \/ \A o \in O \ Echo(pair) :
           LET c == Ask(pair, a, b, o) IN
           Claim(<<pair, 4, "value">>,
                 Fits(A, o, c) \/ (Abs(T - T623) < "1e-9" /\ (Fits(W(TRUE), o, c) \/ Fits(W(FALSE), o, c))),
                 <<pair, a, b, o, "answered", c, "specified", IF o = OX THEN A[3] ELSE WetValue(o, p, T, A[1], A[2], A[3])>>)
\* (h,s): the temperature is the backward equation where there is one; elsewhere it must solve s
WetHS(h, s) ==
  LET c == Ask("hs", h, s, OT)
      T == c + K0
      p == Psat(T)
      explicit == "5.210887825" < s /\ s < "9.155759395"
      L == SatL(p, T, T \leq T623)
      V == SatV(p, T, T \leq T623)
      x == QualityOf(h, OH, L, V)
      m == Abs(MixValue(OS, L, V, x) - s)
  IN  \/ NearCritT(T)
      \/ IF explicit THEN Claim(<<"hs", 4, "T">>, Agrees(Max2(T4hs(h, s), K0) - K0, c), <<h, s, "answered", c, "specified", T4hs(h, s) - K0>>)
         ELSE IF IsNum(m) /\ m < (IF T < 600 THEN "2e-6" ELSE IF T \leq T623 THEN "1e-5" ELSE IF T < "645" THEN "3e-5" ELSE "3e-4") THEN Claim(<<"hs", 4, "residual">>, TRUE, <<h, s, m>>)
              ELSE \/ Excused(<<"hs", 4, "residual">>, <<h, s, m>>)
                   \/ Claim(<<"hs", 4, "residual">>, FALSE, <<h, s, "answered T", c, "misses s by", m>>)

-----------------------------------------------------------------------------
(* the mixture pairs *)
HMAX4 == "2803.2738880203456"  HMIN4 == "0.38039218566765925"
SMAX4 == "9.153081306725117"   SMIN4 == "0.33567511183921145"
InMix(pair, a, x) ==
  /\ In(x, 0, 1)
  /\ CASE pair = "px" -> In(a, pmin, pc)
       [] pair = "tx" -> In(a + K0, K0, Tc)
       [] pair = "hx" -> In(a, HMIN4, HMAX4)
       [] pair = "sx" -> In(a, SMIN4, SMAX4)
\* temperature: given, on the saturation line, or answered
MixT(pair, a, x) ==
  CASE pair = "px" -> Tsat(a) [] pair = "tx" -> a + K0 [] OTHER -> AnsT(pair, a, x)
MixSpec(pair, a, x, o, hi) ==
  LET T == MixT(pair, a, x)
      p == IF pair = "px" THEN a ELSE Psat(T)
      L == IF hi THEN HState(T, 1 / vSatL3(p, T)) ELSE GState(1, p, T)
      V == IF hi THEN HState(T, 1 / vSatV3(p, T)) ELSE GState(2, p, T)
  IN  CASE o = OP -> p
        [] o = OT -> T - K0
        [] o = OX -> x
        [] o = OR -> INVALID_OUTID
        [] Eq(x, 0) -> Value(o, L)
        [] Eq(x, 1) -> Value(o, V)
        [] OTHER -> WetValue(o, p, T, L, V, x)
\* towards the critical point the rounding bounds of the region 3 equations grow without the rounding errors doing so:
\* where a property stays smooth they are not taken for more than a millionth
Smooth == {OV, OD, OH, OS, OU}
Sharp(m, c) == IF IsNum(m) /\ IsNum(c) THEN Abs(m - c) \leq "1e-6" * Abs(m) + "1e-8" ELSE TRUE
AnswersMix(pair, a, x, O) ==
  LET T == MixT(pair, a, x)
      edge == Abs(T - T623) < "1e-9"
      hi == IF pair = "px" THEN (IF Eq(x, 0) \/ Eq(x, 1) THEN a > ps623 ELSE T > T623) ELSE T > T623
  IN  \A o \in O \ Echo(pair) :
        LET c == Ask(pair, a, x, o)
            m == MixSpec(pair, a, x, o, hi)
        IN  \/ NearCritT(T) \/ (pair = "px" /\ NearCritp(a))
            \/ Claim(<<pair, IF hi THEN "high" ELSE "low", IF Eq(x, 0) THEN "liquid" ELSE IF Eq(x, 1) THEN "vapour" ELSE "wet">>,
                 (Agrees(m, c) /\ (o \in Smooth => Sharp(m, c))) \/ (edge /\ Agrees(MixSpec(pair, a, x, o, ~hi), c)),
                 <<pair, a, x, o, "answered", c, "specified", m>>)
\* (h,x) and (s,x): the answered temperature reproduces the input (to 1e-7 of the latent change)
MixMiss(pair, a, x, T) ==
  LET p == Psat(T)
      L == SatL(p, T, T \leq T623)
      V == SatV(p, T, T \leq T623)
  IN  QualityOf(a, First(pair), L, V) - x
\* the equations of the line change at a few places above 623.15 K: the solution may lie in such a step
Solves(pair, a, x, T) ==
  LET m == MixMiss(pair, a, x, T) IN
  /\ IsNum(m)
  /\ \/ Abs(m) < "1.01e-7"
     \/ T > T623 /\ MixMiss(pair, a, x, T - "1e-6") * MixMiss(pair, a, x, T + "1e-6") < 0

-----------------------------------------------------------------------------
(* everything there is to say about one request, for the properties O *)
KnownId(o) == o \in AllIds
Single(pair, a, b, O) ==
  LET c == Ask(pair, a, b, OR)
      r == ToInt(c)
  IN  IF ~IsNum(c) THEN Claim(<<pair, "region">>, FALSE, <<pair, a, b, "region answered", c>>)
      ELSE /\ IF pair = "hs" /\ r = 5
              THEN LET T == AnsT("hs", a, b)  p == Ask("hs", a, b, OP) IN
                   Claim(<<"hs", "region">>, T > T1073 - "1e-6" /\ T < T2273 + "1e-6" /\ p > pmin * "0.99999999" /\ p < "50.0000001", <<"hs", a, b, "region answered", 5, "at", T, p>>)
              ELSE Claim(<<pair, "region">>, MayBe(pair, r, a, b) \/ (First(pair) = OP /\ pair # "pt" /\ Strip(a)), <<pair, a, b, "region answered", r>>)
           /\ CASE r < 0 -> \A o \in O \ Echo(pair) :
                              Claim(<<pair, "rejected">>, Eq(Ask(pair, a, b, o), IF o = OX THEN INVALID_VALUE ELSE r), <<pair, a, b, o, Ask(pair, a, b, o)>>)
                [] r = 4 -> IF pair = "pt" THEN \A o \in O \ (Echo(pair) \union {OR}) : Claim(<<pair, "rejected">>, Eq(Ask(pair, a, b, o), INVALID_VALUE), <<pair, a, b, o, Ask(pair, a, b, o)>>)
                            ELSE (pair = "hs" => WetHS(a, b)) /\ AnswersW(pair, a, b, O)
                [] r \in {1, 2, 3, 5} ->
                     IF Explicit(pair, r) THEN AnswersX(pair, r, a, b, O) ELSE AnswersR(pair, r, a, b, O)
                [] OTHER -> Claim(<<pair, "region">>, FALSE, <<pair, a, b, "region answered", c>>)
\* (h,x) and (s,x) may have no solution: the property stays on one side of the input all along the line
LineT(k) == K0 + ((Tc - K0) * k) / 60
Line == [k \in 1 .. 60 |-> LET L == LiqT(LineT(k - 1))  V == VapT(LineT(k - 1)) IN <<Exact(L[4]), Exact(V[4]), Exact(L[5]), Exact(V[5])>>]
LineY(c, T, x) == LET L == LiqT(T)  V == VapT(T) IN IF c = 1 THEN L[4] + x * (V[4] - L[4]) ELSE L[5] + x * (V[5] - L[5])
\* the highest (sign 1) or lowest (-1) value on the line between two temperatures around its only extremum there
RECURSIVE Extreme(_,_,_,_,_,_)
Extreme(c, x, sign, lo, hi, n) ==
  IF n = 0 THEN LineY(c, (lo + hi) / 2, x)
  ELSE LET m1 == Exact(lo + (hi - lo) / 3)  m2 == Exact(hi - (hi - lo) / 3)
       IN  IF sign * LineY(c, m1, x) > sign * LineY(c, m2, x) THEN Extreme(c, x, sign, lo, m2, n - 1) ELSE Extreme(c, x, sign, m1, hi, n - 1)
NoSolution(pair, a, x) ==
  LET c == IF First(pair) = OH THEN 1 ELSE 3
      end == IF First(pair) = OH THEN hcrit ELSE sc
      At1(k) == Line[k][c] + x * (Line[k][c + 1] - Line[k][c])
      Best(sign) == CHOOSE k \in 1 .. 60 : \A m \in 1 .. 60 : ~(sign * At1(m) > sign * At1(k))
      Fine(sign) == LET k == Best(sign) IN Extreme(c, x, sign, LineT(IF k = 1 THEN 0 ELSE k - 2), LineT(k), 26)
  IN  \/ ~(end > a) /\ (\A k \in 1 .. 60 : ~(At1(k) > a)) /\ (Best(1) \in {1, 60} \/ ~(Fine(1) > a * (1 + "1e-9")))
      \/ ~(end < a) /\ (\A k \in 1 .. 60 : ~(At1(k) < a)) /\ (Best(-1) \in {1, 60} \/ ~(Fine(-1) < a * (1 - "1e-9")))
MixRequest(pair, a, x, O) ==
  LET solved == pair \in {"px", "tx"} \/ ~Eq(Ask(pair, a, x, OT), INVALID_VALUE) IN
  IF ~InMix(pair, a, x)
  THEN \A o \in O \ Echo(pair) : Claim(<<pair, "rejected">>, Eq(Ask(pair, a, x, o), INVALID_VALUE), <<pair, a, x, o, "answered", Ask(pair, a, x, o)>>)
  ELSE IF ~solved
  THEN /\ Claim(<<pair, "no solution">>, NoSolution(pair, a, x), <<pair, a, x, "rejected">>)
       /\ \A o \in O \ Echo(pair) : Claim(<<pair, "no solution">>, Eq(Ask(pair, a, x, o), INVALID_VALUE), <<pair, a, x, o, "answered", Ask(pair, a, x, o)>>)
  ELSE /\ pair \in {"hx", "sx"} =>
            (LET T == MixT(pair, a, x) IN
             Abs(T - Tc) < "2.1e-6" \/ Claim(<<pair, "residual">>, Solves(pair, a, x, T), <<pair, a, x, "answered T", T - K0, "misses the quality by", MixMiss(pair, a, x, T)>>))
       /\ AnswersMix(pair, a, x, O)
Request(pair, a, b, O) == IF pair \in MixPairs THEN MixRequest(pair, a, b, O) ELSE Single(pair, a, b, O)

=============================================================================
