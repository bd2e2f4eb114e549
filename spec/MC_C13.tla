------------------------------- MODULE MC_C13 -------------------------------
(* C13: every call returns: a finite number for finite inputs, never a panic, whatever the arguments. *)
EXTENDS Checks
D == Scale(12, 50)
PP == Pairs
S_ == PTs({"r1", "r2", "r3", "r3c", "crit", "r5", "sat", "satT", "b23", "corner", "sub3", "out", "low"}) \union Wets({"wet", "wethi", "wettop"}) \union Directs(PP \ {"pt"}, {"box", "out", "lit12"}) \union {<<pp, "wild">> : pp \in Pairs}
O_ == AllIds
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == WhereIs(f, Point(f, i_, j_, D))
P_(f, i_, j_, r) == TRUE

RW(f) == RowsA(f, D)
CW(f) == ColsA(f, D)
PW(f, i_, j_) == PointA(f, i_, j_, D)
WhereW(f, i_, j_) == IF f[2] = "wild" THEN 0 ELSE WhereIs(f, PW(f, i_, j_))
Strange == {-2147483647, -9999, -1, 36, 40, 1000000, 2147483647}
Finite(pair, a, b, o, c) ==
  Claim(<<pair, "returns">>, Outcome(c) # "panic" /\ ((IsNum(a) /\ IsNum(b)) => Outcome(c) = "num"), <<pair, a, b, o, "answered", c, Outcome(c)>>)
\* all the properties, or those an answer is computed from and some in turn
Ids(n) == IF n % Scale(6, 1) = 0 THEN O_ ELSE {OT, OV, OX, OR} \union {n % 36, (7 * n + 11) % 36, (11 * n + 5) % 36}
Total(pair, a, b, n, regions) ==
  /\ \A o \in Ids(n) : Finite(pair, a, b, o, Ask(pair, a, b, o))
  /\ \A o \in (IF n % 3 = 0 THEN Strange ELSE {-1, 36}) : (LET c == Ask(pair, a, b, o) IN Finite(pair, a, b, o, c))
  /\ regions => \A g \in {-2147483647, -1, 0, 6, 10, 11, 2147483647} \union (1 .. 5) : \A o \in {OV, OH, OT, OP, OX, OR, OCP, ODV, (n % 36)} :
       (LET c == CallR(pair, a, b, o, g) IN Claim(<<pair, "named returns">>, Outcome(c) # "panic", <<pair, a, b, o, "region", g, "answered", c, Outcome(c)>>))
\* the identifiers that are none, around every power of two and all those a table might be indexed by
Sweep == (-300 .. 700) \union UNION {{Pow2(n) - 1, Pow2(n), Pow2(n) + 1, -Pow2(n), 4 - Pow2(n), Pow2(n) + 4} : n \in 7 .. 30}
Swept(pair, a, b) == \A o \in Sweep \ O_ : Finite(pair, a, b, o, Ask(pair, a, b, o))
A_(f, i_, j_, r) ==
  LET q == PW(f, i_, j_) IN
  /\ (i_ = 0 /\ j_ = 0 /\ f[2] \in {"r1", "r2", "r3", "r5", "wet", "box", "out"}) => \A w \in Requests(f, q, r) : Swept(w[1], w[2], w[3])
  /\ CASE f[1] = "pt" ->
         (/\ Total("pt", q[1], q[2], i_ + j_, (i_ + j_) % 5 = 0)
          /\ ~(r \in {1, 2, 3, 5}) \/ (LET S == At(r, q[1], q[2]) IN
               \A pair \in SinglePairs \ {"pt"} : (LET a == Fwd(pair, q[1], q[2], S) IN Total(pair, a[1], a[2], i_ + j_, (i_ + j_) % 7 = 0))))
    [] f[1] = "wet" ->
         (LET T == q[1] + K0  p == Exact(Psat(T)) IN
          \A pair \in Pairs \ {"pt"} : (LET a == FwdWet(pair, p, q[1], LiqT(T), VapT(T), q[2]) IN Total(pair, a[1], a[2], i_ + j_, FALSE)))
    [] OTHER -> Total(f[1], q[1], q[2], i_ + j_, f[2] = "wild" /\ f[1] \in SinglePairs)
=============================================================================
