------------------------------- MODULE MC_C18 -------------------------------
(* C18: a state handed from pair to pair stays the same state.  A journey starts at a point of the (p,t) plane    *)
(* (or of the wet area); each hop takes two properties of the last answer and asks another pair with them.        *)
(* TLC explores every journey of up to three hops.  Nothing is compared with the equations of IF97: the answers    *)
(* are held against the start, within what IF97 and the solvers allow each hop to move the state.                 *)
EXTENDS Api, Points
Near0(x, y, tol) == IsNum(x) /\ IsNum(y) /\ Abs(x - y) \leq tol
VARIABLES stage, st, i, j, road
vars == <<stage, st, i, j, road>>
D == Scale(20, 60)
Single_ == PTs({"r1", "r2", "r2hp", "r3", "r3c", "r5", "sat", "satT", "b23"})
Wet_ == Wets({"wet", "wethi"})
S_ == Single_ \union Wet_
WetPairs == {"px", "tx", "ph", "ps", "pv", "tv", "th", "ts", "hs"}

(* ---- one hop of a single-phase state ----                                                                       *)
(* A stop is <<region, pair, a, b, T, p, eT, ep, dT, dp>>: T, p the state answered, eT, ep how far it may be from  *)
(* the start, dT, dp how far it may be from the state its arguments name.                                          *)
Q(x, o) == Ask(x[2], x[3], x[4], o)
Alpha(x) == Q(x, OEC)
QT(x, o) == CASE o = OP -> 0 [] o = OT -> 1 [] o = OH -> Q(x, OCP) [] o = OS -> Q(x, OCP) / x[5] [] o = OV -> Q(x, OV) * Alpha(x)
QP(x, o) == CASE o = OP -> 1 [] o = OT -> 0 [] o = OH -> 1000 * Q(x, OV) * (1 - x[5] * Alpha(x)) [] o = OS -> -(1000 * Q(x, OV) * Alpha(x)) [] o = OV -> -(Q(x, OV) * Q(x, OKT))
\* the pressure belonging to the answer: in region 3 from the isothermal stress coefficient
TrueP(x) == IF x[1] = 3 THEN 1 / (Q(x, OBETAP) * Q(x, OV) * Q(x, OKT)) ELSE Q(x, OP)
\* how well property o of the answer belongs to the state answered: exactly, unless it was an argument
Slack(x, o) == "1e-11" * (Abs(Q(x, o)) + "1e-3") +
             (IF o \in Echo(x[2]) \/ (x[1] = 3 /\ o = OP) THEN Abs(QT(x, o)) * x[9] + Abs(QP(x, o)) * x[10] ELSE 0)
Det(x, m) == QT(x, First(m)) * QP(x, Second(m)) - QP(x, First(m)) * QT(x, Second(m))
\* errors ea, eb of the two arguments of m move the state by so much
MoveT(x, m, ea, eb) == (Abs(QP(x, Second(m))) * ea + Abs(QP(x, First(m))) * eb) / Abs(Det(x, m))
MoveP(x, m, ea, eb) == (Abs(QT(x, Second(m))) * ea + Abs(QT(x, First(m))) * eb) / Abs(Det(x, m))
\* what the pair itself may miss, <<dT, dp>>: the tolerances of the backward equations, or the end of an iteration
SolveErr(x, m) == 
  LET f == IF First(m) = OP THEN QT(x, Second(m)) ELSE QP(x, Second(m))
  IN  "1e-7" * (Min2(1, Abs(Q(x, Second(m))) + 1) + Abs(f))
Misses(x, m) ==
  LET r == x[1]  T == x[5]  p == x[6]
      k == Q(x, OKT)
      jt == Abs(Q(x, OJTC))
      near == 20 < p /\ p < 23 /\ T < 660
  IN  CASE m = "pt" -> (IF r = 3 THEN <<0, Max2("1e-4" * p, "1e-4" / k) * (IF near THEN 10 ELSE 1)>> ELSE <<0, 0>>)
        [] m = "tv" /\ r = 3 -> <<0, 0>>
        [] m \in {"ph", "ps"} /\ r \in {1, 2} -> <<"0.0255", 0>>
        [] m \in {"ph", "ps"} /\ r = 3 -> <<"0.0255", "1.1e-4" / k + "0.0255" * Abs(Alpha(x) / k)>>
        [] m = "hs" /\ r = 1 -> (LET d == IF p < "2.6" THEN "0.0061" * p + "1e-4" ELSE "0.0152" IN <<"0.0255" + jt * d, d>>)
        [] m = "hs" /\ r = 2 -> (LET d == "1e-4" * p IN <<"0.0255" + jt * d, d>>)
        [] m = "hs" /\ r = 3 -> (LET d == "1.1e-4" * p IN <<"0.0255" + jt * d, d + "1.1e-4" / k + ("0.0255" + jt * d) * Abs(Alpha(x) / k)>>)
        [] m = "hs" -> <<MoveT(x, m, SolveErr(x, "ph"), SolveErr(x, "ts")) * 10, MoveP(x, m, SolveErr(x, "ph"), SolveErr(x, "ts")) * 10>>
        [] OTHER -> <<MoveT(x, m, 0, SolveErr(x, m)), MoveP(x, m, 0, SolveErr(x, m))>>
Start(q) == LET r == ToInt(Ask("pt", q[1], q[2], OR))
                x == <<r, "pt", q[1], q[2], q[2] + K0, q[1], 0, 0, 0, 0>>
            IN  IF r = 3 THEN <<r, "pt", q[1], q[2], q[2] + K0, TrueP(x), 0, 0, Misses(x, "pt")[1], Misses(x, "pt")[2]>> ELSE x
Hop(x, m) ==
  LET a == Exact(Q(x, First(m)))
      b == Exact(Q(x, Second(m)))
      r == ToInt(Ask(m, a, b, OR))
      y == <<r, m, a, b>>
      d == Misses(x, m)
      ea == Slack(x, First(m))
      eb == Slack(x, Second(m))
      vague == Abs(Det(x, m)) \leq 0 \/ (x[1] = 1 /\ ((x[5] < 284 /\ m \in {"pv", "ts"}) \/ (x[5] > 500 /\ m = "th")))
  IN  <<r, m, a, b, Q(y, OT) + K0, IF r \in {1, 2, 3, 5} THEN TrueP(y) ELSE 0,
        x[7] + d[1] + (IF vague THEN 0 ELSE MoveT(x, m, ea, eb)), x[8] + d[2] + (IF vague THEN 0 ELSE MoveP(x, m, ea, eb)), d[1], d[2], vague>>
Single3(q, r) == ~(Abs(q[2] + K0 - Tc) < "1.5" /\ Abs(q[1] - pc) < "0.8")
\* well inside its region by the (p,t) pair
Deep(q, r) == /\ r = 3 => ~(T623 - 1 < q[2] + K0 /\ q[2] + K0 < Tc + 1 /\ (q[2] + K0 > Tc - 1 \/ Abs(Psat(q[2] + K0) - q[1]) < "0.3"))
              /\ \A d \in {"-0.01", "0.01"} : Eq(Ask("pt", Exact(q[1] * (1 + d)), q[2], OR), r) /\ Eq(Ask("pt", q[1], Exact(q[2] + 60 * d), OR), r)
RECURSIVE Journey(_, _)
\* the last stop of a road; <<>> when a stop on the way left the region or does not determine the state
Journey(q, w) ==
  IF w[1] = "-" THEN Start(q)
  ELSE LET n == IF w[3] # "-" THEN 3 ELSE IF w[2] # "-" THEN 2 ELSE 1
           x == Journey(q, [w EXCEPT ![n] = "-"])
       IN  IF x = <<>> THEN x
           ELSE LET y == Hop(x, w[n]) IN (IF y[11] \/ (y[1] # x[1] /\ ~(y[7] < "0.3" /\ y[8] < "0.005" * x[6] /\ Deep(q, x[1]))) \/ y[7] > 1 \/ (y[1] \in {1, 2, 3, 5} /\ y[8] > "0.05" * (y[6] + 1)) THEN <<>> ELSE y)
Stays(q, w) ==
  LET x == Start(q)
      y == Journey(q, w)
  IN  IF x[1] \in {1, 2, 3, 5} /\ Single3(q, x[1]) /\ y # <<>>
      THEN /\ Claim(<<"region", y[2]>>, x[1] = y[1], <<q, w, "left region", x[1], "for", y[1], y[2], y[3], y[4]>>)
           /\ x[1] = y[1] =>
              (/\ Claim(<<"T", x[1], y[2]>>, Abs(x[5] - y[5]) \leq "1.2" * y[7] + "1e-8", <<q, w, "started at T", x[5], "arrived at", y[5], "allowed", y[7]>>)
               /\ Claim(<<"p", x[1], y[2]>>, Abs(x[6] - y[6]) \leq "1.2" * y[8] + "1e-8" * (x[6] + "1e-3"), <<q, w, "started at p", x[6], "arrived at", y[6], "allowed", y[8]>>))
      ELSE TRUE

(* ---- wet steam ---- *)
WStart(q) == <<"tx", q[1], q[2]>>
WQ(x, o) == Ask(x[1], x[2], x[3], o)
RECURSIVE WJourney(_, _)
WJourney(q, w) ==
  IF w[1] = "-" THEN WStart(q)
  ELSE LET n == IF w[3] # "-" THEN 3 ELSE IF w[2] # "-" THEN 2 ELSE 1
           x == WJourney(q, [w EXCEPT ![n] = "-"])
       IN  <<w[n], Exact(WQ(x, First(w[n]))), Exact(WQ(x, Second(w[n])))>>
WStays(q, w) ==
  LET x == WStart(q)
      y == WJourney(q, w)
      dh == Ask("tx", q[1], 1, OH) - Ask("tx", q[1], 0, OH)
      dv == Ask("tx", q[1], 1, OV) / Ask("tx", q[1], 0, OV)
      hs == w[1] = "hs" \/ w[2] = "hs" \/ w[3] = "hs"
      eT == IF hs THEN "0.01" ELSE "1e-6"
      ex == IF hs THEN "0.2" / dh ELSE "1e-6" / Min2(1, dh / 100)
      lo == IF q[1] < 350 THEN "1e-6" ELSE "0.006"
      th == w[1] = "th" \/ w[2] = "th" \/ w[3] = "th"
  IN  (lo < q[2] /\ q[2] < 1 - lo /\ (~th \/ Ask("pt", 100, q[1], OH) < Ask("tx", q[1], q[2], OH)) /\ q[1] + K0 < Tc - 1 /\ Abs(q[1] - 350) > "0.01") =>
        (/\ Claim(<<"T", 4, y[1]>>, Near0(WQ(y, OT), q[1], eT), <<q, w, "arrived at", y, WQ(y, OT)>>)
         /\ Claim(<<"x", 4, y[1]>>, Near0(WQ(y, OX), q[2], ex), <<q, w, "arrived at", y, WQ(y, OX)>>))

(* ---- the journeys ---- *)
None == <<"-", "-", "-">>
Init == stage = "idle" /\ st = <<"none", "none">> /\ i = 0 /\ j = 0 /\ road = None
Choose == /\ stage = "idle" /\ stage' = "row"
          /\ \E s \in S_ : \E a \in 0 .. (RowsOf(s, D) - 1) : st' = s /\ i' = a
          /\ UNCHANGED <<j, road>>
Depart == /\ stage = "row" /\ stage' = "way"
          /\ \E b \in 0 .. (ColsOf(st, D) - 1) : j' = b
          /\ UNCHANGED <<st, i, road>>
Depth == IF (i + 3 * j) % Scale(8, 2) = 0 THEN 3 ELSE 2
Move == /\ stage = "way" /\ stage' = "way"
        /\ \E n \in 1 .. Depth :
             /\ road[n] = "-" /\ (IF n = 1 THEN TRUE ELSE road[n - 1] # "-")
             /\ \E m \in (IF st[1] = "pt" THEN SinglePairs ELSE WetPairs) : (IF n = 1 THEN TRUE ELSE road[n - 1] # m) /\ road' = [road EXCEPT ![n] = m]
        /\ UNCHANGED <<st, i, j>>
Next == Choose \/ Depart \/ Move
Same_ == (stage = "way" /\ road # None) =>
         (Seen("behaviour") /\ (IF st[1] = "pt" THEN Stays(Point(st, i, j, D), road) ELSE WStays(Point(st, i, j, D), road)))
TypeOK == stage \in {"idle", "row", "way"}
=============================================================================
