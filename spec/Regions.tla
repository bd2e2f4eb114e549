------------------------------- MODULE Regions -------------------------------
(***************************************************************************)
(* Which region of IF97 a pair of inputs lies in.  Region(pair, a, b, k)   *)
(* is a region number 1..5 or the error code of a rejected input.          *)
(*                                                                         *)
(* Comparisons with a boundary that is itself a computed number cannot be  *)
(* decided closer than rounding noise.  The argument k in {-1, 0, 1}       *)
(* shifts every computed boundary by that noise: the classifications an    *)
(* implementation may give are Region(pair, a, b, k) for some k.  Literal  *)
(* boundaries (the domain limits, 623.15 K ...) are not shifted.           *)
(***************************************************************************)
EXTENDS Backward

T1073 == "1073.15"   T2273 == "2273.15"   T623 == "623.15"   T863 == "863.15"
pExt == "1e-8"                       \* lowest pressure of the extended pairs
hcrit == "2087.546845"
eps == "1e-8"                          \* accuracy the iterations stop at
psTol == "1e-6"                      \* relative width of the saturation line in (p,T)

In(x, lo, hi) == lo \leq x /\ x \leq hi

v1(p, T) == GState(1, p, T)[3]   h1(p, T) == GState(1, p, T)[4]   s1(p, T) == GState(1, p, T)[5]
v2(p, T) == GState(2, p, T)[3]   h2(p, T) == GState(2, p, T)[4]   s2(p, T) == GState(2, p, T)[5]
v5(p, T) == GState(5, p, T)[3]   h5(p, T) == GState(5, p, T)[4]   s5(p, T) == GState(5, p, T)[5]
v3(p, T) == V3(p, T, 0)          h3(p, T) == HState(T, 1 / V3(p, T, 0))[4]   s3(p, T) == HState(T, 1 / V3(p, T, 0))[5]

NearCritT(T) == Abs(T - Tc) < "1e-6"
NearCritp(p) == Abs(p - pc) < "1e-6"
vSatL3(p, T) == V3sub(p, T, SubSatL(p))
vSatV3(p, T) == V3sub(p, T, SubSatV(p))

-----------------------------------------------------------------------------
RegionPT(p, T, k) ==
  IF p < pmin \/ p > 100 THEN INVALID_P
  ELSE IF T < K0 \/ T > T2273 THEN INVALID_T
  ELSE IF T > T1073 /\ p > 50 THEN INVALID_P
  ELSE IF T < Tc /\ Lt(Abs(p / Psat(T) - 1), psTol, k) THEN 4
  ELSE IF Eq(T, Tc) /\ Eq(p, pc) THEN 3
  ELSE IF T \leq T623 THEN IF p > Psat(T) THEN 1 ELSE 2
  ELSE IF T \leq T863 THEN IF Le(p, B23p(T), k) THEN 2 ELSE 3
  ELSE IF T \leq T1073 THEN 2
  ELSE 5

(* (p,h) and (p,s) share one shape: along the isobar the property rises from *)
(* the 273.15 K value through the boundaries to the 2273.15 K value          *)
RegionPY(p, y, k, lo, f1(_,_), f2(_,_), hi, sat3(_), yL, yV) ==
  IF ~In(p, pmin, 100) THEN INVALID_VALUE
  ELSE IF Lt(y, lo, k) THEN INVALID_VALUE
  ELSE IF p \leq ps623 THEN
    LET Ts == Tsat(p) IN
    IF Le(y, f1(p, Ts), k) THEN 1
    ELSE IF Lt(y, f2(p, Ts), k) THEN 4
    ELSE IF Le(y, f2(p, T1073), k) THEN 2
    ELSE IF Le(y, hi, k) THEN 5 ELSE INVALID_VALUE
  ELSE
    IF Le(y, f1(p, T623), k) THEN 1
    ELSE IF Lt(y, f2(p, B23T(p)), k) THEN
           IF p < pc /\ Le(Fuzzy(yL, "1e-9"), y, k) /\ Le(y, Fuzzy(yV, "1e-9"), k) /\ Lt(p, sat3(y), k) THEN 4 ELSE 3
    ELSE IF Le(y, f2(p, T1073), k) THEN 2
    ELSE IF p \leq 50 /\ Le(y, hi, k) THEN 5 ELSE INVALID_VALUE

hL623 == "1670.858218"  hV623 == "2563.592004"
sL623 == "3.778281340"  sV623 == "5.210887825"
RegionPH(p, h, k) == RegionPY(p, h, k, h1(p, K0), h1, h2, h5(p, T2273), p3sat_h, hL623, hV623)
RegionPS(p, s, k) == RegionPY(p, s, k, s1(p, K0), s1, s2, s5(p, T2273), p3sat_s, sL623, sV623)

-----------------------------------------------------------------------------
(* (h,s) without region 5, which is decided by inverting its equation *)
sB13min == s1(100, T623)          \* 3.398...
sB13max == s1(ps623, T623)
sTPmax == s2(100, T1073)
s2abTop == s2(4, T1073)
smin == s1(100, K0)
smax == s2(pmin, T1073)
h4l == h1(pmin, K0)   s4l == s1(pmin, K0)
h4v == h2(pmin, K0)   s4v == s2(pmin, K0)
h23max == h2(100, T863)
h23min == h2(ps623, T623)
hTriple(s) == h4l + ((s - s4l) / (s4v - s4l)) * (h4v - h4l)     \* the 273.15 K line under the dome
dh100 == "0.6"                                                   \* the 100 MPa line in (h,s)
(* the pressure at which f(.) = s: f falls with pressure, at least from its last maximum on *)
RECURSIVE Psolve(_,_,_,_,_,_)
Psolve(f(_,_), T, s, lo, hi, n) ==
  IF n = 0 THEN lo
  ELSE LET m == Exact(IF hi > 2 * lo THEN Sqrt(lo * hi) ELSE (lo + hi) / 2)
       IN  IF f(m, T) > s THEN Psolve(f, T, s, m, hi, n - 1) ELSE Psolve(f, T, s, lo, m, n - 1)
hCold(s) == Fuzzy(h1(Psolve(s1, K0, s, pmin, 100, 50), K0), "1e-6")       \* the 273.15 K line of the liquid
hHot(s) == Fuzzy(h2(Psolve(s2, T1073, s, pmin, 100, 24), T1073), dh100)   \* the 1073.15 K line
RegionHS14(h, s, k) ==
  IF Lt(s, smin, -1) \/ ~Le(s, smax, 1) THEN INVALID_VALUE
  ELSE IF s < s4l /\ Lt(h, hCold(s), k) THEN INVALID_VALUE
  ELSE IF s < s4v /\ Lt(h, hTriple(s), k) THEN INVALID_VALUE
  ELSE IF Le(s, sB13min, k) THEN
    IF s \geq s4l /\ Lt(h, h1sat_s(s), k) THEN 4
    ELSE IF Le(h, Fuzzy(h1(100, T1ps(100, s)), dh100), k) THEN 1 ELSE INVALID_VALUE
  ELSE IF Le(s, sB13max, k) THEN
    IF Lt(h, h1sat_s(s), k) THEN 4
    ELSE IF Lt(h, hB13_s(s), k) THEN 1
    ELSE IF Le(h, Fuzzy(h3(100, T3ps(100, s)), dh100), k) THEN 3 ELSE INVALID_VALUE
  ELSE IF s < "5.048096828" THEN
    IF Lt(h, (IF s \leq sc THEN h3asat_s(s) ELSE h2c3bsat_s(s)), k) THEN 4
    ELSE IF Le(h, Fuzzy(h3(100, T3ps(100, s)), dh100), k) THEN 3 ELSE INVALID_VALUE
  ELSE IF s < "5.260578707" THEN
    IF Lt(h, h2c3bsat_s(s), k) THEN 4
    ELSE IF Lt(h, h23min, k) THEN 3
    ELSE IF Lt(h, h23max, k) THEN
           IF Le(p2hs_c(h, s), B23p(TB23_hs(h, s)), k) THEN 2 ELSE 3
    ELSE IF Le(h, Fuzzy(h2(100, T2ps(100, s)), dh100), k) THEN 2 ELSE INVALID_VALUE
  ELSE IF s < s4v THEN
    IF Lt(h, (IF s < "5.85" THEN h2c3bsat_s(s) ELSE h2absat_s(s)), k) THEN 4
    ELSE IF Le(h, (IF Lt(s, sTPmax, k) THEN Fuzzy(h2(100, T2ps(100, s)), dh100)
                   ELSE hHot(s)), k) THEN 2
    ELSE INVALID_VALUE
  ELSE
    LET p == p2hs_a(h, s) IN
    IF Le(pmin, p, k) /\ p \leq 100 /\ Le(h4v, h, k) /\ Le(h, hHot(s), k) THEN 2 ELSE INVALID_VALUE

-----------------------------------------------------------------------------
(* the extended pairs *)
RegionPV(p, v, k) ==
  IF ~In(p, pExt, 100) THEN INVALID_VALUE
  ELSE IF p \leq ps623 THEN
    LET Ts == IF p < pmin THEN K0 ELSE Tsat(p)
        vL == IF p < pmin THEN 0 ELSE v1(p, Ts)
        vV == v2(p, Ts)
    IN  IF p \geq pmin /\ Lt(v, vL, k) THEN IF Lt(v, v1(p, K0), k) THEN INVALID_VALUE ELSE 1
        ELSE IF p < pmin /\ Lt(v, vV, k) THEN INVALID_VALUE
        ELSE IF Le(v, vV, k) /\ p \geq pmin THEN 4
        ELSE IF Le(v, v2(p, T1073), k) THEN 2
        ELSE IF p \geq pmin /\ Le(v, v5(p, T2273), k) THEN 5 ELSE INVALID_VALUE
  ELSE
    IF Lt(v, v1(p, K0), k) THEN INVALID_VALUE
    ELSE IF Le(v, v1(p, T623), k) THEN 1
    ELSE IF Lt(v, v2(p, B23T(p)), k) THEN
      IF p < pc /\ Le(vSatL3(p, Tsat(p)), v, k) /\ Le(v, vSatV3(p, Tsat(p)), k) THEN 4 ELSE 3
    ELSE IF Le(v, v2(p, T1073), k) THEN 2
    ELSE IF p \leq 50 /\ Le(v, v5(p, T2273), k) THEN 5 ELSE INVALID_VALUE

(* along an isotherm v and s fall with pressure *)
RegionTY(T, y, k, bad, f1(_,_), f2(_,_), f3(_,_), f5(_,_), L3, V3s) ==
  IF T < K0 \/ T > T2273 THEN bad
  ELSE IF T > T1073 THEN
    IF Le(f5(50, T), y, k) /\ Le(y, f5(pmin, T), k) THEN 5 ELSE INVALID_VALUE
  ELSE IF Lt(y, (IF T \leq T623 THEN f1(100, T) ELSE IF T \leq T863 THEN Min2(f3(100, T), f2(B23p(T), T)) ELSE f2(100, T)), k) THEN INVALID_VALUE
  ELSE IF Lt(f2(pExt, T), y, k) THEN INVALID_VALUE
  ELSE IF T \leq T623 THEN
    IF Lt(y, f1(Psat(T), T), k) THEN 1
    ELSE IF Le(y, f2(Psat(T), T), k) THEN 4 ELSE 2
  ELSE IF T \leq T863 THEN
    IF Lt(y, f2(B23p(T), T), k)
    THEN IF T < Tc /\ Le(L3, y, k) /\ Le(y, V3s, k) THEN 4 ELSE 3
    ELSE 2
  ELSE 2
RegionTV(T, v, k) ==
  LET L == T > T623 /\ T < Tc
      p == IF L THEN Psat(T) ELSE 0
  IN  RegionTY(T, v, k, INVALID_VALUE, v1, v2, v3, v5, IF L THEN vSatL3(p, T) ELSE 0, IF L THEN vSatV3(p, T) ELSE 0)
RegionTS(T, s, k) ==
  IF T < K0 \/ T > T2273 THEN INVALID_T
  ELSE IF s > "18.992" \/ s < "-0.008583" THEN INVALID_S
  ELSE LET L == T > T623 /\ T < Tc
           p == IF L THEN Psat(T) ELSE 0
       IN  RegionTY(T, s, k, INVALID_T, s1, s2, s3, s5,
             IF L THEN HState(T, 1 / vSatL3(p, T))[5] ELSE 0, IF L THEN HState(T, 1 / vSatV3(p, T))[5] ELSE 0)

(* (T,h): h is not monotone along an isotherm of the liquid, so an input may have  *)
(* several solutions and Region is a set: every region that holds one              *)
RECURSIVE Argmin1(_,_,_,_)
Argmin1(T, lo, hi, n) ==            \* the pressure of least h1(., T): dh/dp changes sign there
  IF n = 0 THEN lo
  ELSE LET m == Exact((lo + hi) / 2)
           S == GState(1, m, T)
       IN  IF S[3] - T * S[12] < 0 THEN Argmin1(T, m, hi, n - 1) ELSE Argmin1(T, lo, m, n - 1)
RECURSIVE Argmin3(_,_,_,_)
Argmin3(T, lo, hi, n) ==            \* the same in region 3, as a density
  IF n = 0 THEN lo
  ELSE LET m == Exact((lo + hi) / 2)
           S == HState(T, m)
       IN  IF S[3] - T * S[12] < 0 THEN Argmin3(T, m, hi, n - 1) ELSE Argmin3(T, lo, m, n - 1)
RegionsTH(T, h, k) ==
  IF T < K0 \/ T > T2273 THEN {INVALID_VALUE}
  ELSE LET found ==
    IF T > T1073 THEN IF Le(h5(50, T), h, k) /\ Le(h, h5(pmin, T), k) THEN {5} ELSE {}
    ELSE IF T > T863 THEN IF Le(h2(100, T), h, k) /\ Le(h, h2(pExt, T), k) THEN {2} ELSE {}
    ELSE IF T > T623 THEN
      LET top == h2(B23p(T), T)  bot == h3(100, T) IN
      IF Le(top, h, k) THEN IF Le(h, h2(pExt, T), k) THEN {2} ELSE {}
      ELSE IF T \geq Tc THEN IF Le(bot, h, k) THEN {3} ELSE {}
      ELSE LET hl == HState(T, 1 / vSatL3(Psat(T), T))[4]
               hv == HState(T, 1 / vSatV3(Psat(T), T))[4]
           IN  (IF Le(hl, h, k) /\ Le(h, hv, k) THEN {4} ELSE {})
               \union (IF Le(hv, h, k) \/ (Le(bot, h, k) /\ Le(h, hl, k)) THEN {3} ELSE {})
    ELSE
      LET ps == Psat(T)  hl == h1(ps, T)  hv == h2(ps, T)  hm == h1(100, T)
          least == IF T < "515" THEN hl ELSE Fuzzy(h1(Argmin1(T, ps, 100, 60), T), eps)
      IN  (IF Le(least, h, k) /\ Le(h, Max2(hl, hm), k) THEN {1} ELSE {})
          \union (IF Le(hl, h, k) /\ Le(h, hv, k) THEN {4} ELSE {})
          \union (IF Le(hv, h, k) /\ Le(h, h2(pExt, T), k) THEN {2} ELSE {})
    IN IF found = {} THEN {INVALID_VALUE} ELSE found
=============================================================================
