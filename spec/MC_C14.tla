------------------------------- MODULE MC_C14 -------------------------------
(* C14: an answer depends on the arguments only, not on the requests made before or at the same time.      *)
(* The state of the interface is nothing: whatever the history, the next request is answered as the first. *)
(* A behaviour is a history of requests by two threads, taken step by step; "walks" are long histories,    *)
(* "storms" are requests of eight threads at the same time.                                                *)
EXTENDS Api, Points
NB == Scale(24, 300)            \* states the histories are about
NE == Scale(12, 96)             \* ... and on boundaries
Walks == Scale(400, 6000)
Storms == Scale(24, 600)

Fam == <<"r1", "r2", "r3", "r5", "wet", "r3c", "wethi", "r2hp">>
NFam == Size(Fam)
\* state number n: the pairs that express it, with their arguments, and the region
StateOf(n) ==
  LET f == Fam[(n % NFam) + 1]
      k == Div(n, NFam)
      m == Div(NB, NFam) + 1
  IN  IF f \in {"wet", "wethi"}
      THEN LET q == Wet(f, k, (3 * k) + 1, m, (3 * m) + 2)
               p == Exact(Psat(q[1] + K0))
               L == LiqT(q[1] + K0)
               V == VapT(q[1] + K0)
           IN  [r |-> 4, reqs |-> [pair \in Pairs \ {"pt"} |-> FwdWet(pair, p, q[1], L, V, q[2])]]
      ELSE LET q == PT(f, k, (7 * k) % m, m, m)
               r == RegionPT(q[1], q[2] + K0, 0)
               S == At(r, q[1], q[2])
           IN  [r |-> r, reqs |-> [pair \in SinglePairs |-> Fwd(pair, q[1], q[2], S)]]
Order == <<"pt", "ph", "ps", "hs", "pv", "tv", "th", "ts", "px", "tx", "hx", "sx">>
Mains(s) == IF s.r = 4 THEN {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12} ELSE {1, 2, 3, 4, 5, 6, 7, 8}
MainOf(n, s) == Order[IF s.r = 4 THEN 2 + (Div(n, NFam) % 11) ELSE 1 + (Div(n, NFam) % 8)]
Free(pair, o) == IF o \in {First(pair), Second(pair)} THEN OU ELSE o
Nudge(x, d) == Exact(x * (1 + d))
(* what is asked about state n: its main pair in full; the same state by the other pairs; requests that share *)
(* one argument, or nearly; other pairs with the same two numbers; named regions; rejected ones               *)
Relatives(n) ==
  LET s == StateOf(n)
      m == MainOf(n, s)
      a == s.reqs[m][1]
      b == s.reqs[m][2]
      o == Free(m, <<OH, OT, OS, OV, OP, ODV, OCP>>[(n % 7) + 1])
      Other(d) == LET i == ((CHOOSE q \in 1 .. 12 : Order[q] = m) + d) % 12 IN Order[i + 1]
      Same1(d) == LET q == (IF Other(d) \in DOMAIN s.reqs THEN Other(d) ELSE "ph") IN <<q, s.reqs[q][1], s.reqs[q][2], Free(q, IF d % 2 = 0 THEN OT ELSE OD)>>
      g == IF m \in SinglePairs THEN TRUE ELSE FALSE
  IN  << <<m, a, b, o>>, <<m, a, b, Free(m, OW)>>, <<m, a, b, Free(m, OS)>>, <<m, a, b, OX>>, <<m, a, b, OR>>, <<m, a, b, First(m)>>, <<m, a, b, 99>>,
         <<m, a, Nudge(b, "1e-12"), o>>, <<m, a, Nudge(b, "-1e-7"), o>>, <<m, a, Nudge(b, "1e-4"), o>>, <<m, a, Nudge(b, "0.02"), o>>,
         <<m, Nudge(a, "1e-12"), b, o>>, <<m, Nudge(a, "-1e-7"), b, o>>, <<m, Nudge(a, "1e-4"), b, o>>, <<m, Nudge(a, "0.02"), b, o>>,
         IF g THEN <<m, a, b, o, s.r>> ELSE <<m, a, b, OD>>, IF g THEN <<m, a, b, o, (s.r % 3) + 1>> ELSE <<m, a, b, OG>>,
         <<m, Exact(-a), b, o>>, <<m, a, Exact(-5000), o>>,
         Same1(0), Same1(1), Same1(2), Same1(3), Same1(4), Same1(6),
         <<Other(0), a, b, o>>, <<Other(3), a, b, o>>, <<"px", IF First(m) = OP THEN a ELSE 1, "0.3", OH>>, <<"tx", IF First(m) = OT THEN a ELSE 100, "0.3", OS>> >>
NR == 29
(* states on a boundary, where the last places of the arguments decide the region *)
EdgeOf(k) ==
  LET u == Frac(34, k, NE)
      m == Order[(k % 12) + 1]
      e == Div(k, 12)
      T == K0 + (IF k % 2 = 0 THEN 350 * u ELSE 350 + 23 * u)
      x == (k + e) % 2
      w == FwdWet(IF m = "pt" THEN "px" ELSE m, Exact(Psat(T)), Exact(T - K0), LiqT(T), VapT(T), x)
  IN  IF m # "pt" THEN <<m, w[1], w[2]>>
      ELSE CASE e % 4 = 0 -> <<"pt", Exact(B23p(T623 + 200 * u)), Exact((T623 + 200 * u) - K0)>>
             [] e % 4 = 1 -> <<"pt", Exact(100 * u), 350>>
             [] e % 4 = 2 -> <<"pt", Exact(Psat(K0 + 350 * u)), Exact(350 * u)>>
             [] e % 4 = 3 -> <<"pt", Exact(50 * u), 800>>
EdgeRelatives(k) ==
  LET q == EdgeOf(k)
      Rq(i, j, o) == <<q[1], Ulps(q[2], i), Ulps(q[3], j), o>>
      o == Free(q[1], <<OH, OV, OS, OU>>[(k % 4) + 1])
  IN  << Rq(0, 0, OR), Rq(0, 1, OR), Rq(0, -1, OR), Rq(0, 2, OR), Rq(0, -2, OR), Rq(0, 4, OR), Rq(0, -4, OR), Rq(0, 9, OR), Rq(0, -9, OR), Rq(0, 40, OR), Rq(0, -40, OR),
         Rq(0, 400, OR), Rq(0, -400, OR), Rq(1, 0, OR), Rq(-1, 0, OR), Rq(3, 0, OR), Rq(-3, 0, OR), Rq(7, 0, OR), Rq(-7, 0, OR), Rq(60, 0, OR), Rq(-60, 0, OR),
         Rq(0, 0, o), Rq(0, 1, o), Rq(0, -1, o), Rq(0, 4, o), Rq(0, -4, o), Rq(1, 0, o), Rq(-1, 0, o), Rq(0, 40, o) >>
Pool == [n \in 0 .. (NB + NE - 1) |-> IF n < NB THEN Relatives(n) ELSE EdgeRelatives(n - NB)]

VARIABLES kind,     \* "history", "walk", "storm"
          about,    \* the state the history is about, the number of the walk or storm
          hist,     \* the requests made so far, as numbers into Pool[about]
          who       \* the threads that made them
vars == <<kind, about, hist, who>>
Init == /\ kind \in {"history", "walk", "storm"}
        /\ about \in 0 .. ((CASE kind = "history" -> NB + NE [] kind = "walk" -> Walks [] kind = "storm" -> Storms) - 1)
        /\ hist = <<>> /\ who = <<>>
Push(s, x) == CASE Size(s) = 0 -> <<x>> [] Size(s) = 1 -> <<s[1], x>> [] Size(s) = 2 -> <<s[1], s[2], x>> [] Size(s) = 3 -> <<s[1], s[2], s[3], x>>
Depth == Scale(3, 4)
\* the third request and later: one made before, or one that depends on both
Makes(h, k) == IF Size(h) < 2 THEN TRUE
               ELSE (k = h[1] \/ k = ((h[1] + h[2]) % NR) + 1 \/ (Size(h) = 2 /\ Scale(0, 1) = 1))
Ask1(w, k) == /\ kind = "history" /\ Size(hist) < Depth
              /\ Size(hist) # 1 => w = 0        \* the other thread comes second
              /\ Makes(hist, k)
              /\ hist' = Push(hist, k) /\ who' = Push(who, w) /\ UNCHANGED <<kind, about>>
\* a walk or a storm is one step
Go == kind # "history" /\ hist = <<>> /\ hist' = <<0>> /\ who' = <<0>> /\ UNCHANGED <<kind, about>>
Next == Go \/ \E w \in {0, 1} : \E k \in 1 .. NR : Ask1(w, k)

Script == [k \in 1 .. Size(hist) |-> Pool[about][hist[k]]]
Differs(site, script, ans) ==
  \A k \in 1 .. Size(ans) :
    LET c == Solo(script[k]) IN
    Claim(site, Bits(ans[k], c), <<"request", k, "of", IF Size(script) < 5 THEN script ELSE Size(script), script[k], "answered", ans[k], Outcome(ans[k]), "alone", c, Outcome(c)>>)
HistoryFree == (kind = "history" /\ hist # <<>>) => Seen("behaviour") /\ Differs("history", Script, Run(0, IF \A k \in 1 .. Size(who) : who[k] = 0 THEN 1 ELSE 2, 1, who, Script))
\* a walk wanders over the whole pool, or over one state and its neighbours, on up to three threads
WalkLen == CASE about = 0 -> Scale(70000, 300000) [] about > 0 /\ about % 10 = 0 -> Scale(3000, 20000) [] OTHER -> 120
WalkScript == [k \in 1 .. WalkLen |->
  LET n == (IF about % 3 = 0 THEN about % (NB + NE) ELSE ToInt(Rnd(31, about, k) * (NB + NE) - "0.5")) IN Pool[n % (NB + NE)][(ToInt(Rnd(32, about, k) * NR - "0.5") % NR) + 1]]
WalkWho == [k \in 1 .. WalkLen |-> IF about % 2 = 0 THEN 0 ELSE ToInt(Rnd(33, about, k) * 3 - "0.5") % 3]
WalkFree == (kind = "walk" /\ hist # <<>>) => Seen("behaviour") /\ (LET s == WalkScript IN Differs("walk", s, Run(0, IF about % 2 = 0 THEN 1 ELSE 3, 1, WalkWho, s)))
StormScript == [k \in 1 .. 64 |->
  LET n == (IF about % 2 = 0 THEN about % (NB + NE) ELSE ToInt(Rnd(41, about, k) * (NB + NE) - "0.5")) IN Pool[n % (NB + NE)][(ToInt(Rnd(42, about, k) * NR - "0.5") % NR) + 1]]
StormWho == [k \in 1 .. 64 |-> k % 8]
StormFree == (kind = "storm" /\ hist # <<>>) => Seen("behaviour") /\ (LET s == StormScript IN Differs("storm", s, Run(1, 8, Scale(60, 400), StormWho, s)))
TypeOK == Size(hist) = Size(who)
=============================================================================
