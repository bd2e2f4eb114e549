------------------------------- MODULE MC_C17 -------------------------------
(* C17: the answers obey thermodynamics: relations between the properties of one state, between neighbouring *)
(* states, and across the boundaries of regions.  Here nothing is compared with the equations of IF97: the   *)
(* answers are only held against each other.                                                                  *)
EXTENDS Checks
D == Scale(56, 240)
S_ == PTs({"r1", "r2", "r2hp", "r3", "r3c", "crit", "r5", "sat", "b23"}) \union Wets({"wet", "wethi"}) \union {<<"line", l>> : l \in {"b13", "b23", "b25", "sat"}} \union {<<"pt", "litpt">>}
LineRows == Scale(400, 4000)
R_(f) == IF f[1] = "line" THEN LineRows ELSE RowsOf(f, D)
C_(f) == IF f[1] = "line" THEN 4 ELSE ColsOf(f, D)
W_(f, i_, j_) == IF f[1] = "line" THEN 0 ELSE WhereIs(f, Point(f, i_, j_, D))
P_(f, i_, j_, r) == TRUE


\* relations within one state.  The two arguments come back as they were given, so they agree with the state found only as well
\* as the pair finds it (C03..C06 bound that): hence the slack eh, es, ev for an argument h, s, v.  In region 3 the pressure of 
\* the state found is taken from the isothermal stress coefficient.                                                              
Laws(pair, a, b, r) ==
  LET Q(o) == Ask(pair, a, b, o)
      T == Q(OT) + K0
      v == Q(OV)  h == Q(OH)  u == Q(OU)  s == Q(OS)  cp == Q(OCP)  cv == Q(OCV)  w == Q(OW)
      al == Q(OEC)  k == Q(OKT)
      p == IF r = 3 THEN 1 / (Q(OBETAP) * v * k) ELSE Q(OP)
      hasv == pair \in {"pv", "tv"} /\ r # 3
      eb == "0.03" * cp + "0.06"
      eh == IF pair \in {"ph", "hs"} THEN eb ELSE IF pair = "th" THEN "1e-5" * (1 + Abs(h)) ELSE 0
      es == IF pair \in {"ps", "hs"} THEN eb / T ELSE IF pair = "ts" THEN "1e-5" * (1 + Abs(s)) ELSE 0
      ev == IF hasv THEN "2e-5" ELSE 0
      e == "2e-9" * (1 + Abs(k * p)) + ev
      H == Abs(h) + Abs(u) + T * Abs(s) + 1
      Is(name, x, y, tol) == Claim(<<"law", r, name>>, Near0(x, y, tol), <<pair, a, b, name, x, "against", y>>)
      Rel(name, x, y) == Is(name, x, y, e * Abs(y) + "1e-300")
  IN  /\ Is("h = u + pv", h, u + 1000 * p * v, "1e-9" * H + eh + ev * 1000 * p * v)
      /\ Is("g = h - Ts", Q(OG), h - T * s, "1e-9" * H + eh + T * es)
      /\ Is("f = u - Ts", Q(OF), u - T * s, "1e-9" * H + T * es)
      /\ Is("e = h - T0 s", Q(OE), h - "273.16" * s, "1e-9" * H + "1e-6" + eh + "273.16" * es)
      /\ Rel("d v = 1", Q(OD) * v, 1)
      /\ Is("cp - cv", cp - cv, (1000 * T * v * al * al) / k, e * cp)
      /\ Rel("w^2", w * w, (1000000 * v * cp) / (cv * k))
      /\ Rel("kappa", Q(OKS), (w * w) / (1000000 * p * v))
      /\ Rel("(dv/dp)T", Q(ODVDP), -(v * k))
      /\ Is("(dv/dT)p", Q(ODVDT), v * al, e * v * (Abs(al) + "1e-3"))
      /\ Is("(dp/dT)v", Q(ODPDT), al / k, (e * (Abs(al) + "1e-3")) / k)
      /\ Is("pc", Q(OPC), al / (k * p), (e * (Abs(al) + "1e-3")) / (k * p))
      /\ Rel("betap", Q(OBETAP), 1 / (p * v * k))
      /\ Is("alfap", Q(OALFAP), al / (p * k), (e * (Abs(al) + "1e-3")) / (k * p))
      /\ Is("iJTC", Q(OIJTC), 1000 * v * (1 - T * al), e * 1000 * v * (1 + Abs(T * al)))
      /\ Is("JTC", Q(OJTC), (1000 * v * (T * al - 1)) / cp, (e * 1000 * v * (1 + Abs(T * al))) / cp)
      /\ Rel("z", Q(OZ), (1000 * p * v) / (R * T))
      /\ Rel("fu", Q(OFU), p * Q(OFI))
      /\ Rel("kv", Q(OKV), Q(ODV) * v)
      /\ Rel("td", Q(OTD), (Q(OTC) * v) / (1000 * cp))
      /\ Rel("pr", Q(OPR), (1000 * Q(ODV) * cp) / Q(OTC))
      /\ Claim(<<"stable", r>>, 0 < v /\ 0 < cv /\ cv \leq cp /\ 0 < k /\ 0 < w /\ 0 < Q(ODV) /\ 0 < Q(OTC) /\ 0 < Q(OFU) /\ 1 \leq Q(OSDC),
               <<pair, a, b, "v cv cp kappa w", v, cv, cp, k, w, Q(ODV), Q(OTC), Q(OFU), Q(OSDC)>>)

\* a step from one state to a neighbour: the change is that of the derivatives (trapezoid), to rel of it and the noise of the difference
Step(name, r, y1, y2, dx, m1, m2, noise, what) ==
  LET d == (y2 - y1) / dx
      m == (m1 + m2) / 2
  IN  Claim(<<"slope", r, name>>, Near0(d, m, "1e-3" * (Abs(m1) + Abs(m2)) + Abs(m2 - m1) / 3 + noise / Abs(dx)), <<what, name, "slope", d, "derivative", m>>)
Slopes(p, t, r) ==
  LET dp == Max2("1e-3" * p, IF r = 1 THEN "1e-3" ELSE 0)
      pb == Exact(p + dp)
      tb == Exact(t + "0.05")
      A(o) == Ask("pt", p, t, o)
      B(o) == Ask("pt", pb, t, o)
      C(o) == Ask("pt", p, tb, o)
      T == t + K0
  IN  /\ (Eq(B(OR), r) =>
           (/\ Claim(<<"falls", r, "v">>, B(OV) < A(OV), <<p, pb, t, A(OV), B(OV)>>)
            /\ Step("v along p", r, A(OV), B(OV), dp, A(ODVDP), B(ODVDP), "1e-12" * A(OV), <<p, t>>)
            /\ Step("h along p", r, A(OH), B(OH), dp, A(OIJTC), B(OIJTC), "1e-9", <<p, t>>)
            /\ Step("s along p", r, A(OS), B(OS), dp, -(1000 * A(ODVDT)), -(1000 * B(ODVDT)), "1e-11", <<p, t>>)
            /\ Step("g along p", r, A(OG), B(OG), dp, 1000 * A(OV), 1000 * B(OV), "1e-9", <<p, t>>)))
      /\ (Eq(C(OR), r) =>
           (/\ Claim(<<"rises", r, "h">>, A(OH) < C(OH) /\ A(OS) < C(OS), <<p, t, tb, A(OH), C(OH), A(OS), C(OS)>>)
            /\ Step("v along T", r, A(OV), C(OV), "0.05", A(ODVDT), C(ODVDT), "1e-12" * A(OV), <<p, t>>)
            /\ Step("h along T", r, A(OH), C(OH), "0.05", A(OCP), C(OCP), "1e-9", <<p, t>>)
            /\ Step("s along T", r, A(OS), C(OS), "0.05", A(OCP) / T, C(OCP) / (T + "0.05"), "1e-11", <<p, t>>)
            /\ Step("g along T", r, A(OG), C(OG), "0.05", -A(OS), -C(OS), "1e-9", <<p, t>>)))
\* region 3 in its own variables
Slopes3(t, v) ==
  LET vb == Exact(v * "1.0005")
      tb == Exact(t + "0.02")
      A(o) == Ask("tv", t, v, o)
      B(o) == Ask("tv", t, vb, o)
      C(o) == Ask("tv", tb, v, o)
      T == t + K0
      dv == vb - v
  IN  /\ (Eq(B(OR), 3) =>
           (/\ Claim(<<"falls", 3, "p">>, B(OP) < A(OP), <<t, v, vb, A(OP), B(OP)>>)
            /\ Step("p along v", 3, A(OP), B(OP), dv, 1 / A(ODVDP), 1 / B(ODVDP), "1e-9", <<t, v>>)
            /\ Step("f along v", 3, A(OF), B(OF), dv, -(1000 * A(OP)), -(1000 * B(OP)), "1e-9", <<t, v>>)
            /\ Step("s along v", 3, A(OS), B(OS), dv, 1000 * A(ODPDT), 1000 * B(ODPDT), "1e-11", <<t, v>>)
            /\ Step("u along v", 3, A(OU), B(OU), dv, 1000 * (T * A(ODPDT) - A(OP)), 1000 * (T * B(ODPDT) - B(OP)), "1e-8", <<t, v>>)))
      /\ (Eq(C(OR), 3) =>
           (/\ Step("p along T", 3, A(OP), C(OP), "0.02", A(ODPDT), C(ODPDT), "1e-9", <<t, v>>)
            /\ Step("u along T", 3, A(OU), C(OU), "0.02", A(OCV), C(OCV), "1e-9", <<t, v>>)
            /\ Step("s along T", 3, A(OS), C(OS), "0.02", A(OCV) / T, C(OCV) / (T + "0.02"), "1e-11", <<t, v>>)
            /\ Step("f along T", 3, A(OF), C(OF), "0.02", -A(OS), -C(OS), "1e-8", <<t, v>>)))

\* both sides of a boundary: what the Prague values of 1994 allow the equations to differ by (IF97 keeps well inside)
Across(site, x1, x2) ==
  LET A(o) == Ask("pt", x1[1], x1[2], o)
      B(o) == Ask("pt", x2[1], x2[2], o)
      Is(name, y, z, tol) == Claim(<<"across", site, name>>, Near0(y, z, tol), <<x1, x2, name, y, z>>)
  IN  /\ Claim(<<"across", site, "sides">>, ~Eq(A(OR), B(OR)), <<x1, x2, A(OR), B(OR)>>)
      /\ Is("v", A(OV), B(OV), "5e-4" * A(OV))
      /\ Is("h", A(OH), B(OH), "0.2")
      /\ Is("s", A(OS), B(OS), "2e-4")
      /\ Is("g", A(OG), B(OG), "0.2")
      /\ Is("cp", A(OCP), B(OCP), "0.01" * A(OCP))
      /\ Is("w", A(OW), B(OW), "0.01" * A(OW))
LineOf(l, i_, j_) ==
  LET u == Frac2(7, j_, i_, LineRows)
      d == <<"1e-10", "1e-9", "1e-8", "1e-7">>[j_ + 1]
  IN  CASE l = "b13" -> (LET p == Exact(Mid("16.6", 100, u)) IN Across(l, <<p, 350>>, <<p, Exact(350 * (1 + d))>>))
        [] l = "b23" -> (LET p == Exact(Mid("16.6", "99.9", u))  t == B23T(p) - K0 IN Across(l, <<p, Exact(t * (1 + d))>>, <<p, Exact(t * (1 - d))>>))
        [] l = "b25" -> (LET p == Exact(Log(pmin, 50, u)) IN Across(l, <<p, 800>>, <<p, Exact(800 * (1 + d))>>))
        [] l = "sat" ->
             \* saturated liquid and vapour: what pt answers next to the line, what px and tx answer on it; equal Gibbs energies
             (LET t == Exact(Mid(0, "373", u))
                  p == Ask("tx", t, 0, OP)
                  X(q, o) == Ask("px", p, q, o)
                  Y(q, o) == Ask("tx", t, q, o)
                  Z(q, o) == Ask("pt", Exact(p * (IF q = 0 THEN 1 + "2e-6" ELSE 1 - "2e-6")), t, o)
                  Is(name, y, z, tol) == Claim(<<"across", l, name>>, Near0(y, z, tol), <<"t", t, "p", p, name, y, z>>)
              IN  /\ Is("T(p(T))", X(0, OT), t, "1e-8")
                  /\ \A q \in {0, 1} :
                       (/\ Is("px v", X(q, OV), Y(q, OV), "1e-6" * Y(q, OV))
                        /\ Is("px h", X(q, OH), Y(q, OH), "2e-4")
                        /\ Is("px s", X(q, OS), Y(q, OS), "1e-6")
                        /\ t > 370 \/ (/\ Is("pt v", Z(q, OV), Y(q, OV), "1e-4" * Y(q, OV))
                                       /\ Is("pt h", Z(q, OH), Y(q, OH), "0.05")
                                       /\ Is("pt s", Z(q, OS), Y(q, OS), "1e-4")))
                  /\ Is("g", Y(0, OG), Y(1, OG), "0.02")
                  /\ Claim(<<"across", l, "order">>, Y(0, OV) < Y(1, OV) /\ Y(0, OH) < Y(1, OH) /\ Y(0, OS) < Y(1, OS), <<t>>)
                  /\ Is("Clapeyron", (Y(1, OH) - Y(0, OH)) / ((t + K0) * (Y(1, OV) - Y(0, OV)) * 1000),
                        (Ask("tx", Exact(t + "1e-3"), 0, OP) - p) / "1e-3", ("3e-3" * (Ask("tx", Exact(t + "1e-3"), 0, OP) - p)) / "1e-3" + "1e-7"))

Turn == <<"ph", "ps", "hs", "pv", "tv", "th", "ts">>
A_(f, i_, j_, r) ==
  CASE f[1] = "line" -> LineOf(f[2], i_, j_)
    [] f[1] = "pt" ->
         (LET q == Point(f, i_, j_, D)
              nearcrit == Abs(q[2] + K0 - Tc) < "0.3" /\ Abs(q[1] - pc) < "0.2"
          IN  (Eq(Ask("pt", q[1], q[2], OR), r) /\ r \in {1, 2, 3, 5} /\ ~nearcrit) =>
              (LET S == At(r, q[1], q[2])
                   m == Turn[((i_ + j_) % 7) + 1]
                   a == Fwd(m, q[1], q[2], S)
                   g == ToInt(Ask(m, a[1], a[2], OR))
               IN  /\ Laws("pt", q[1], q[2], r)
                   /\ g \in {1, 2, 3, 5} => Laws(m, a[1], a[2], g)
                   /\ r # 3 => Slopes(q[1], q[2], r)
                   /\ r = 3 => (LET b == Fwd("tv", q[1], q[2], S) IN (Eq(Ask("tv", b[1], b[2], OR), 3) => (Laws("tv", b[1], b[2], 3) /\ Slopes3(b[1], b[2]))))))
    [] f[1] = "wet" ->
         (LET q == Point(f, i_, j_, D)
              Y(o) == Ask("tx", q[1], q[2], o)
              H == Abs(Y(OH)) + Abs(Y(OU)) + (q[1] + K0) * Abs(Y(OS)) + 1
              Is(name, x, y, tol) == Claim(<<"wet", name>>, Near0(x, y, tol), <<"tx", q[1], q[2], name, x, y>>)
          IN  /\ Is("h = u + pv", Y(OH), Y(OU) + 1000 * Y(OP) * Y(OV), IF q[1] < 350 THEN "1e-9" * H ELSE "0.2")
              /\ Is("g = h - Ts", Y(OG), Y(OH) - (q[1] + K0) * Y(OS), "1e-9" * H)
              /\ Is("f = u - Ts", Y(OF), Y(OU) - (q[1] + K0) * Y(OS), "1e-9" * H)
              /\ Is("d v = 1", Y(OD) * Y(OV), 1, "1e-12"))
=============================================================================
