------------------------------- MODULE MC_C10 -------------------------------
(* C10: region 3: v(p,T) is the subregion's equation, and solves the region's fundamental equation. *)
EXTENDS Checks
D == Scale(100, 300)
PP == {"pt"}
S_ == PTs({"r3", "r3c", "crit", "sub3", "b23", "sat", "satT", "litp", "litpt"})
O_ == {OV, OD, OH, OS}
R_(f) == RowsOf(f, D)
C_(f) == ColsOf(f, D)
W_(f, i_, j_) == WhereIs(f, Point(f, i_, j_, D))
P_(f, i_, j_, r) == TRUE
\* the answered volume solves p(rho, T) = p, to the accuracy IF97 gives the subregion equations;
\* the same volume and region answer when the region is named
A_(f, i_, j_, r) ==
  LET q == Point(f, i_, j_, D) IN
  r = 3 /\ Eq(Ask("pt", q[1], q[2], OR), 3) =>
           /\ Single("pt", q[1], q[2], O_)
           /\ (LET v == Ask("pt", q[1], q[2], OV)
                   T == q[2] + K0
                   S == HState(T, 1 / v)
                   m == Min2(Abs((S[1] - q[1]) / q[1]), Abs(((S[1] - q[1]) * S[13]) / v))
                   sub == Sub3(q[1], T, 0)
               IN  /\ Claim(<<"consistent", sub>>, IsNum(m) /\ m < (IF sub \in {"u", "v", "w", "x", "y", "z"} THEN "1e-3" ELSE "1e-4"),
                            <<q[1], q[2], "answered v", v, "misses p by", m>>)
                   /\ Claim(<<"sharp", sub>>, Some(LAMBDA k : Sharp(V3(q[1], T, k), v)), <<q[1], q[2], "answered v", v, "specified", V3(q[1], T, 0)>>)
                  /\ Claim("named region", Same(v, CallR("pt", q[1], q[2], OV, 3)), <<q[1], q[2]>>))
=============================================================================
