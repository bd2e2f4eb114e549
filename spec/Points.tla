-------------------------------- MODULE Points --------------------------------
(***************************************************************************)
(* Where requests are taken from: families ("strata") of points of the     *)
(* (p,T) plane and of the wet-steam area, indexed by two integers.  The    *)
(* families follow the structure of the specification: the interior of     *)
(* every region, both sides of every boundary at distances from one unit   *)
(* in the last place to 1 %, the lines where the implementation may switch *)
(* equations, the critical point, and the outside.                         *)
(* Points are jittered by the seed; boundaries are hit exactly.            *)
(***************************************************************************)
EXTENDS Regions

Frac(k, i, n) == (i + Rnd(k, i, n)) / n           \* i-th of n cells of [0,1], jittered
Frac2(k, i, j, n) == (j + Rnd(k, i, j)) / n
Mid(lo, hi, u) == lo + (hi - lo) * u
Log(lo, hi, u) == lo * (hi / lo) ^ u

\* distances to a boundary: relative offsets, exact hit, last places
Ladder == <<"1e-2", "-1e-2", "1e-3", "-1e-3", "1e-4", "-1e-4", "1.2e-5", "-1.2e-5", "1.01e-6", "-1.01e-6",
            "0.99e-6", "-0.99e-6", "1e-7", "-1e-7", "1e-9", "-1e-9", "1e-12", "-1e-12", "0", "ulp+", "ulp-">>
NL == Size(Ladder)
Off(x, j) == LET d == Ladder[(j % NL) + 1] IN
  CASE d = "ulp+" -> Ulps(x, 1) [] d = "ulp-" -> Ulps(x, -1) [] OTHER -> Exact(IF Eq(x, 0) THEN d ELSE x * (1 + d))

pmax2(T) == IF T \leq T623 THEN Psat(T) ELSE IF T \leq T863 THEN B23p(T) ELSE 100
\* literal boundaries in t (Celsius) and p
EdgeT == <<0, 350, 590, 800, 2000, "373.946", "873.15", 10, 250>>
Edgep == <<"0.000611212677444", "16.5291642526045", "16.5291643", "22.064", "23", "23.5", "25", "40", "22.5", "20.5", "50", "100",
           4, "4.52575789059480", 10, "21.0434", "21.9316", "21.9009", "22.11", "19.00881189173929", "6.54670", "0.000611657", "0.001", 1>>
NP == Size(Edgep)
NT == Size(EdgeT)
Near(x, n) == Off(x, n + 18)           \* the value itself and its neighbours
(* literals of the implementation: the numbers written in its source that can be a value of quantity q *)
\* LitN(q) of them; Lit(q, k) the k-th
LitAxis(q, n) == Off(Lit(q, Div(n, NL)), n)                              \* with every offset of the ladder
Near3 == Scale(1, 3)                     \* with one of three offsets, or with each of them
LitNear(q, n, sel) == LET l == Lit(q, Div(n, Near3))  m == (IF Near3 = 1 THEN sel ELSE n % 3) IN
  CASE m = 0 -> l [] m = 1 -> Exact(l * "1.0001") [] m = 2 -> Exact(l * "0.9999")
LitN1(q) == LitN(q) * NL
LitN3(q) == LitN(q) * Near3
\* the range of quantity q, and a little beyond
Axis(q, u) == Exact(CASE q = "p" -> Log("3e-9", 130, u)
                      [] q = "t" -> Mid(-15, 2080, u * u)
                      [] q = "h" -> Mid(-60, 7500, u ^ "1.5")
                      [] q = "s" -> Mid("-0.3", "19.3", u ^ "1.5")
                      [] q = "v" -> Log("9e-4", "2e6", u)
                      [] q = "x" -> Mid("-0.02", "1.02", u))
\* beyond that range: above it, below it, negative
Beyond(q, u, side) ==
  CASE side = 0 -> Exact(Axis(q, 1) * (1 + 9 * u * u))
    [] side = 1 -> Exact(IF q \in {"p", "v"} THEN Axis(q, 0) * u ELSE Axis(q, 0) * (1 + 9 * u))
    [] side = 2 -> Exact(-Axis(q, u))
Axis1(pair) == CASE pair \in {"pt", "ph", "ps", "pv", "px"} -> "p" [] pair \in {"tv", "th", "ts", "tx"} -> "t"
                 [] pair \in {"hs", "hx"} -> "h" [] pair = "sx" -> "s"
Axis2(pair) == CASE pair = "pt" -> "t" [] pair \in {"ph", "th"} -> "h" [] pair \in {"ps", "hs", "ts"} -> "s"
                 [] pair \in {"pv", "tv"} -> "v" [] OTHER -> "x"

\* how many rows and columns a stratum has at density d (per region interior d x d)
RowsPT(s, d) == CASE s = "edgep" -> NP * NL [] s = "corner" -> NP * 3 [] s \in {"sat", "satT", "b23"} -> 2 * d
                  [] s = "sub3" -> 13 * 4
                  [] s = "litp" -> LitN1("p") [] s = "litt" -> Div(d, 4) [] s = "litpt" -> LitN3("p")
                  [] OTHER -> d
ColsPT(s, d) == CASE s = "edgeT" -> NT * NL [] s = "edgep" -> 12 [] s = "corner" -> NT * 3 [] s \in {"sat", "satT", "b23"} -> NL
                  [] s = "sub3" -> 54
                  [] s = "litp" -> Div(d, 4) [] s = "litt" -> LitN1("t") [] s = "litpt" -> LitN3("t")
                  [] OTHER -> d
\* region 3 subregion boundaries, and the pressures between which they divide
SubB == <<"ab", "cd", "ef", "gh", "ij", "jk", "mn", "op", "qu", "rx", "uv", "wx", "sat">>
SubLo == <<25, "19.00881189173929", "22.064", "22.5", "22.5", "20.5", "22.5", "22.5", "21.04336732", "21.04336732", "21.93161551", "21.90096265", "16.53">>
SubHi == <<100, 40, 40, 25, 25, 25, 23, 23, "22.5", "22.5", "22.5", "22.5", "22.063">>
SubT(n, p) == CASE n = 1 -> L3ab(p) [] n = 2 -> L3cd(p) [] n = 3 -> L3ef(p) [] n = 4 -> L3gh(p) [] n = 5 -> L3ij(p)
                [] n = 6 -> L3jk(p) [] n = 7 -> L3mn(p) [] n = 8 -> L3op(p) [] n = 9 -> L3qu(p) [] n = 10 -> L3rx(p)
                [] n = 11 -> L3uv(p) [] n = 12 -> L3wx(p) [] n = 13 -> Tsat(p)

(* the point <<p, t>> number (i, j) of n x m of a stratum *)
PT(s, i, j, n, m) ==
  LET u == Frac(1, i, n)
      w == Frac2(2, i, j, m)
      C(T) == Exact(T - K0)
  IN
  CASE s = "r1" -> (LET t == Exact(350 * u)  ps == Psat(t + K0) IN <<Exact(Mid(ps, 100, w * w)), t>>)
    [] s = "r2" -> (LET t == Exact(800 * u) IN <<Exact(Log(pmin, pmax2(t + K0), w)), t>>)
    [] s = "r2hp" -> (LET T == Mid(T623, T1073, u) IN <<Exact(Mid(1, pmax2(T), w)), C(T)>>)
    [] s = "r3" -> (LET T == Mid(T623, T863, u)  t == C(T) IN <<Exact(Mid(B23p(t + K0), 100, w * w)), t>>)
    [] s = "r3c" -> <<Exact(Mid("16.53", 26, u)), Exact(Mid(350, 410, w))>>
    [] s = "crit" -> <<Exact(pc * (1 + (u - "0.5") * "0.04")), Exact((Tc - K0) + (w - "0.5") * 8)>>
    [] s = "r5" -> <<Exact(Log(pmin, 50, w)), Exact(Mid(800, 2000, u))>>
    [] s = "low" -> <<Exact(Log(pExt, pmin, w)), Exact(800 * u)>>
    [] s = "sat" -> (LET t == Exact(Mid(0, "373.9459", u)) IN <<Off(Psat(t + K0), j), t>>)
    [] s = "satT" -> (LET p == Exact(Log(pmin, "22.0639", u))  t == Tsat(p) - K0 IN <<p, Off(t, j)>>)
    [] s = "b23" -> (LET t == Exact(Mid(350, 590, u)) IN <<Off(B23p(t + K0), j), t>>)
    [] s = "edgeT" -> <<Exact(Log(pmin, 100, u)), Off(EdgeT[(j % NT) + 1], Div(j, NT))>>
    [] s = "edgep" -> <<Off(Edgep[(i % NP) + 1], Div(i, NP)), Exact((IF j % 4 = 0 THEN 2000 ELSE 800) * w)>>
    [] s = "corner" -> <<Near(Edgep[(i % NP) + 1], Div(i, NP)), Near(EdgeT[(j % NT) + 1], Div(j, NT))>>
    [] s = "sub3" -> (LET b == (i % 13) + 1
                          p == Exact(Mid(SubLo[b], SubHi[b], Frac2(3, i, j, m)))
                          d == Ladder[(j % 18) + 1]
                      IN <<p, C(SubT(b, p) * (1 + d / 10))>>)
    [] s = "litp" -> (LET p == LitAxis("p", i) IN
                      IF j % 3 = 0 /\ p < pc /\ p > pmin THEN <<p, C(Tsat(p) + (w - "0.5") * 3)>> ELSE <<p, Axis("t", w)>>)
    [] s = "litt" -> (LET t == LitAxis("t", j)  T == t + K0 IN
                      <<IF i % 3 = 0 /\ T \leq Tc /\ T \geq K0 THEN Exact(Psat(T) * (1 + (u - "0.5") / 10))
                        ELSE IF i % 3 = 1 THEN Exact(100 * u) ELSE Exact(Log(pmin, 100, u)), t>>)
    [] s = "litpt" -> <<LitNear("p", i, (i + 2 * j) % 3), LitNear("t", j, (i + j) % 3)>>
    [] s = "out" -> (CASE j % 8 = 0 -> <<Exact(Log("1e-10", "0.00061", w)), Exact(2000 * u)>>
                       [] j % 8 = 1 -> <<Exact(Mid("100.0001", 500, w)), Exact(2000 * u)>>
                       [] j % 8 = 2 -> <<Exact(Log(pmin, 100, w)), Exact(Mid(-273, "-0.00001", u))>>
                       [] j % 8 = 3 -> <<Exact(Log(pmin, 100, w)), Exact(Mid("2000.0001", 5000, u))>>
                       [] j % 8 = 4 -> <<Exact(Mid("50.00001", 100, w)), Exact(Mid("800.0001", 2000, u))>>
                       [] j % 8 = 5 -> <<Exact(-(100 * w)), Exact(2000 * u)>>
                       [] j % 8 = 6 -> <<Exact(0), Exact(1000 * u)>>
                       [] j % 8 = 7 -> <<Exact(Log(50, 100, w)), Off(800, j + i)>>)

AllPT == {"r1", "r2", "r2hp", "r3", "r3c", "crit", "r5", "low", "sat", "satT", "b23", "edgeT", "edgep", "corner", "sub3",
           "litp", "litt", "litpt", "out"}
Inside == {"r1", "r2", "r2hp", "r3", "r3c", "r5"}
Lines == {"crit", "sat", "satT", "b23", "edgeT", "edgep", "corner", "sub3"}
Lits == {"litp", "litt", "litpt"}

\* a single-phase state for the region r a point lies in
At(r, p, t) == IF r = 3 THEN HState(t + K0, 1 / V3(p, t + K0, 0)) ELSE GState(r, p, t + K0)
\* the request for that state that gives the pair instead
Fwd(pair, p, t, S) ==
  LET Q(q) == CASE q = "p" -> p [] q = "t" -> t [] q = "h" -> Exact(S[4]) [] q = "s" -> Exact(S[5]) [] q = "v" -> Exact(S[3])
  IN  <<Q(Axis1(pair)), Q(Axis2(pair))>>

-----------------------------------------------------------------------------
(* wet steam: the point <<t, x>>, and the request for that state *)
QLadder == <<"0", "1", "1e-12", "1e-9", "1e-6", "1e-3", "0.999", "0.999999", "0.999999999">>
RowsWet(s, d) == CASE s = "wetT" -> LitN("t") [] s = "wetlitp" -> LitN("p") * 7 [] s = "wetlitx" -> Div(d, 6) [] OTHER -> d
ColsWet(s, d) == CASE s = "wetT" -> NL * 2 [] s = "wetlitx" -> LitN1("x") [] s = "wetlitp" -> 6 [] OTHER -> d
Wet(s, i, j, n, m) ==
  LET u == Frac(4, i, n)
      w == Frac2(5, i, j, m)
      x == IF (j + Div(j, NL)) % 3 = 0 THEN Exact(QLadder[(Div(j, 3) % Size(QLadder)) + 1]) ELSE Exact(w)
  IN  CASE s = "wet" -> <<IF i = 0 THEN Exact(0) ELSE Exact(Mid(0, "373.94", u)), x>>
        [] s = "wethi" -> <<Exact(Mid(350, "373.9459", u)), x>>
        [] s = "wettop" -> <<Exact("373.946" - Log("2e-5", 2, u)), x>>     \* towards the critical point
        [] s = "wetT" -> (LET t == Off(Lit("t", i % LitN("t")), j) IN <<IF t > "373.9459" \/ t < -1 THEN Exact(Mid(0, "373.94", w)) ELSE t, x>>)
        [] s = "wetlitp" -> (LET p == Off(Lit("p", Div(i, 7)), <<2, 3, 6, 7, 18, 19, 20>>[(i % 7) + 1]) IN <<IF p > pmin /\ p < pc THEN Exact(Tsat(p) - K0) ELSE 100, x>>)
        [] s = "wetlitx" -> <<Exact(Mid(0, "373.94", u)), LitAxis("x", j)>>
FwdWet(pair, p, t, L, V, x) ==
  LET Q(q) == CASE q = "p" -> p [] q = "t" -> t [] q = "x" -> x
                [] q = "h" -> Exact(L[4] + x * (V[4] - L[4])) [] q = "s" -> Exact(L[5] + x * (V[5] - L[5])) [] q = "v" -> Exact(L[3] + x * (V[3] - L[3]))
  IN  <<Q(Axis1(pair)), Q(Axis2(pair))>>

-----------------------------------------------------------------------------
(* requests of a pair taken directly from the ranges of its two quantities *)
RowsD(pair, s, d) == CASE s \in {"lit1"} -> LitN1(Axis1(pair)) [] s = "lit12" -> LitN3(Axis1(pair)) [] s = "lit2" -> Div(d, 4) [] OTHER -> d
ColsD(pair, s, d) == CASE s \in {"lit2"} -> LitN1(Axis2(pair)) [] s = "lit12" -> LitN3(Axis2(pair)) [] s = "lit1" -> Div(d, 4) + (IF Axis2(pair) = "x" THEN Size(QLadder) ELSE 0) [] OTHER -> d
DP(pair, s, i, j, n, m) ==
  LET u == Frac(6, i, n)
      w == Frac2(7, i, j, m)
  IN  CASE s = "box" -> <<Axis(Axis1(pair), u), Axis(Axis2(pair), w)>>
        [] s = "lit1" -> <<LitAxis(Axis1(pair), i),
                          IF Axis2(pair) = "x" /\ j < Size(QLadder) THEN Exact(QLadder[j + 1]) ELSE Axis(Axis2(pair), w)>>
        [] s = "lit2" -> <<Axis(Axis1(pair), u), LitAxis(Axis2(pair), j)>>
        [] s = "out" -> (CASE j % 6 < 3 -> <<Beyond(Axis1(pair), u, j % 3), Axis(Axis2(pair), w)>>
                          [] OTHER -> <<Axis(Axis1(pair), u), Beyond(Axis2(pair), w, j % 3)>>)
        [] s = "lit12" -> <<LitNear(Axis1(pair), i, (i + 2 * j) % 3), LitNear(Axis2(pair), j, (i + j) % 3)>>

-----------------------------------------------------------------------------
(* a family is <<source, name>>: source "pt" a point of the (p,t) plane, "wet" a wet state, *)
(* any other source a request of that pair                                                  *)
RowsOf(f, d) == CASE f[1] = "pt" -> RowsPT(f[2], d) [] f[1] = "wet" -> RowsWet(f[2], d) [] OTHER -> RowsD(f[1], f[2], d)
ColsOf(f, d) == CASE f[1] = "pt" -> ColsPT(f[2], d) [] f[1] = "wet" -> ColsWet(f[2], d) [] OTHER -> ColsD(f[1], f[2], d)
Point(f, i, j, d) ==
  LET n == RowsOf(f, d)  m == ColsOf(f, d) IN
  CASE f[1] = "pt" -> PT(f[2], i, j, n, m) [] f[1] = "wet" -> Wet(f[2], i, j, n, m) [] OTHER -> DP(f[1], f[2], i, j, n, m)
PTs(S) == {<<"pt", s>> : s \in S}
Wets(S) == {<<"wet", s>> : s \in S}
Directs(P, S) == {<<pp, s>> : pp \in P, s \in S}
=============================================================================
