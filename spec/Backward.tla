------------------------------ MODULE Backward ------------------------------
(***************************************************************************)
(* The backward and auxiliary equations of IAPWS-IF97 and its supplements: *)
(* T(p,h), T(p,s), p(h,s) of regions 1 and 2, T, v(p,h), T, v(p,s), p(h,s) *)
(* of region 3, v(p,T) of the 26 subregions of region 3, Tsat(h,s), and    *)
(* the equations of the region boundaries in (p,h), (p,s) and (h,s).       *)
(***************************************************************************)
EXTENDS IF97

\* region 1
T1ph(p, h) == Poly(Tab_ph2T_reg1, p, h / 2500 + 1)
T1ps(p, s) == Poly(Tab_ps2T_reg1, p, s + 2)
p1hs(h, s) == 100 * Poly(Tab_hs2p_reg1, h / 3400 + "0.05", s / "7.6" + "0.05")

\* region 2
h2bc(p) == "0.26526571908428e4" + Sqrt((p - "0.45257578905948e1") / "0.12809002730136e-3")
Is2c(p, h, k) == p > "4.52575789059480" /\ Lt(h, h2bc(p), k)
T2ph(p, h, k) ==
  IF p \leq 4 THEN Poly(Tab_ph2T_reg2a, p, h / 2000 - "2.1")
  ELSE IF Is2c(p, h, k) THEN Poly(Tab_ph2T_reg2c, p + 25, h / 2000 - "1.8")
  ELSE Poly(Tab_ph2T_reg2b, p - 2, h / 2000 - "2.6")
T2ps(p, s) ==
  IF p \leq 4 THEN Poly(Tab_ps2T_reg2a, p, s / 2 - 2)
  ELSE IF s < "5.85" THEN Poly(Tab_ps2T_reg2c, p, 2 - s / "2.9251")
  ELSE Poly(Tab_ps2T_reg2b, p, 10 - s / "0.7853")
h2ab(s) == "-0.349898083432139E+04" + "0.257560716905876E+04" * s
           - "0.421073558227969E+03" * s * s + "0.276349063799944E+02" * s * s * s
p2hs_a(h, s) == 4 * Poly(Tab_hs2p_reg2a, h / 4200 - "0.5", s / 12 - "1.2") ^ 4
p2hs_b(h, s) == 100 * Poly(Tab_hs2p_reg2b, h / 4100 - "0.6", s / "7.9" - "1.01") ^ 4
p2hs_c(h, s) == 100 * Poly(Tab_hs2p_reg2c, h / 3500 - "0.7", s / "5.9" - "1.1") ^ 4
p2hs(h, s, k) ==
  IF Le(h, h2ab(s), k) THEN p2hs_a(h, s) ELSE IF s \geq "5.85" THEN p2hs_b(h, s) ELSE p2hs_c(h, s)

\* region 3
h3ab(p) == "0.201464004206875E+04" + "0.374696550136983E+01" * p
           - "0.219921901054187E-01" * p * p + "0.875131686009950E-04" * p * p * p
T3ph(p, h, k) == IF Le(h, h3ab(p), k)
  THEN 760 * Poly(Tab_ph2T_3a_reg3, p / 100 + "0.240", h / 2300 - "0.615")
  ELSE 860 * Poly(Tab_ph2T_3b_reg3, p / 100 + "0.298", h / 2800 - "0.720")
v3ph(p, h, k) == IF Le(h, h3ab(p), k)
  THEN "0.0028" * Poly(Tab_ph2v_3a_reg3, p / 100 + "0.128", h / 2100 - "0.727")
  ELSE "0.0088" * Poly(Tab_ph2v_3b_reg3, p / 100 + "0.0661", h / 2800 - "0.720")
T3ps(p, s) == IF s \leq sc
  THEN 760 * Poly(Tab_ps2T_3a_reg3, p / 100 + "0.240", s / "4.4" - "0.703")
  ELSE 860 * Poly(Tab_ps2T_3b_reg3, p / 100 + "0.760", s / "5.3" - "0.818")
v3ps(p, s) == IF s \leq sc
  THEN "0.0028" * Poly(Tab_ps2v_3a_reg3, p / 100 + "0.187", s / "4.4" - "0.755")
  ELSE "0.0088" * Poly(Tab_ps2v_3b_reg3, p / 100 + "0.298", s / "5.3" - "0.816")
p3hs(h, s) == IF s \leq sc
  THEN 99 * Poly(Tab_hs2p3a_reg3, h / 2300 - "1.01", s / "4.4" - "0.75")
  ELSE "16.6" / Poly(Tab_hs2p3b_reg3, h / 2800 - "0.681", s / "5.3" - "0.792")

-----------------------------------------------------------------------------
(* boundaries in (p,h), (p,s), (h,s) *)
p3sat_h(h) == 22 * Poly(Tab_h2p_sat_reg3, h / 2600 - "1.02", h / 2600 - "0.608")
p3sat_s(s) == 22 * Poly(Tab_s2p_sat_reg3, s / "5.2" - "1.03", s / "5.2" - "0.699")
h1sat_s(s) == 1700 * Poly(Tab_hs_region_h1_s, s / "3.8" - "1.09", s / "3.8" + "0.366e-4")
h3asat_s(s) == 1700 * Poly(Tab_hs_region_h3a_s, s / "3.8" - "1.09", s / "3.8" + "0.366e-4")
h2absat_s(s) == 2800 * Exp(Poly(Tab_hs_region_h2ab_s, "5.21" / s - "0.513", s / "9.2" - "0.524"))
h2c3bsat_s(s) == 2800 * Poly(Tab_hs_region_h2c3b_s, s / "5.9" - "1.02", s / "5.9" - "0.726") ^ 4
hB13_s(s) == 1700 * Poly(Tab_hs_region_h13_s, s / "3.8" - "0.884", s / "3.8" - "0.864")
TB23_hs(h, s) == 900 * Poly(Tab_hs_region_t_hs, h / 3000 - "0.727", s / "5.3" - "0.864")
T4hs(h, s) == 550 * Poly(Tab_hs2T_reg43, h / 2800 - "0.119", s / "9.2" - "1.07")

-----------------------------------------------------------------------------
(* region 3, v(p,T): which of the 26 subregions, and its equation *)
L3ab(p) == LET x == Ln(p) IN "0.154793642129415e4" - "0.187661219490113e3" * x + "0.213144632222113e2" * x * x - "0.191887498864292e4" / x + "0.918419702359447e3" / (x * x)
L3op(p) == LET x == Ln(p) IN "0.969461372400213e3" - "0.332500170441278e3" * x + "0.642859598466067e2" * x * x + "0.773845935768222e3" / x - "0.152313732937084e4" / (x * x)
L3wx(p) == LET x == Ln(p) IN "0.728052609145380e1" + "0.973505869861952e2" * x + "0.147370491183191e2" * x * x + "0.329196213998375e3" / x + "0.873371668682417e3" / (x * x)
L3ef(p) == "3.727888004" * (p - "22.064") + "647.096"
L3cd(p) == Poly(B3cd, p, 1)
L3gh(p) == Poly(B3gh, p, 1)
L3ij(p) == Poly(B3ij, p, 1)
L3jk(p) == Poly(B3jk, p, 1)
L3mn(p) == Poly(B3mn, p, 1)
L3qu(p) == Poly(B3qu, p, 1)
L3rx(p) == Poly(B3rx, p, 1)
L3uv(p) == Poly(B3uv, p, 1)

p643 == "21.04336732"         \* saturation pressure at 643.15 K
Psat643 == Psat("643.15")

Sub3(p, T, k) ==
  IF p > 40 THEN IF ~Le(T, L3ab(p), k) THEN "b" ELSE "a"
  ELSE IF p > 25 THEN
    IF Le(T, L3cd(p), k) THEN "c" ELSE IF Le(T, L3ab(p), k) THEN "d" ELSE IF Le(T, L3ef(p), k) THEN "e" ELSE "f"
  ELSE IF p > "23.5" THEN
    IF Le(T, L3cd(p), k) THEN "c" ELSE IF Le(T, L3gh(p), k) THEN "g" ELSE IF Le(T, L3ef(p), k) THEN "h"
    ELSE IF Le(T, L3ij(p), k) THEN "i" ELSE IF Le(T, L3jk(p), k) THEN "j" ELSE "k"
  ELSE IF p > 23 THEN
    IF Le(T, L3cd(p), k) THEN "c" ELSE IF Le(T, L3gh(p), k) THEN "l" ELSE IF Le(T, L3ef(p), k) THEN "h"
    ELSE IF Le(T, L3ij(p), k) THEN "i" ELSE IF Le(T, L3jk(p), k) THEN "j" ELSE "k"
  ELSE IF p > "22.5" THEN
    IF Le(T, L3cd(p), k) THEN "c" ELSE IF Le(T, L3gh(p), k) THEN "l" ELSE IF Le(T, L3mn(p), k) THEN "m"
    ELSE IF Le(T, L3ef(p), k) THEN "n" ELSE IF Le(T, L3op(p), k) THEN "o" ELSE IF Le(T, L3ij(p), k) THEN "p"
    ELSE IF Le(T, L3jk(p), k) THEN "j" ELSE "k"
  ELSE IF ~Le(p, Psat643, k) THEN
    IF Le(T, L3cd(p), k) THEN "c" ELSE IF Le(T, L3qu(p), k) THEN "q"
    ELSE IF ~Le(T, L3jk(p), k) THEN "k" ELSE IF ~Le(T, L3rx(p), k) THEN "r"
    \* the auxiliary subregions around the critical point
    ELSE IF p > "22.11" THEN
      IF Le(T, L3uv(p), k) THEN "u" ELSE IF Le(T, L3ef(p), k) THEN "v" ELSE IF Le(T, L3wx(p), k) THEN "w" ELSE "x"
    ELSE IF p > pc THEN
      IF Le(T, L3uv(p), k) THEN "u" ELSE IF Le(T, L3ef(p), k) THEN "y" ELSE IF Le(T, L3wx(p), k) THEN "z" ELSE "x"
    ELSE IF Le(T, Tsat(p), k) THEN
      IF p > "21.93161551" /\ ~Le(T, L3uv(p), k) THEN "y" ELSE "u"
    ELSE IF p > "21.90096265" /\ Le(T, L3wx(p), k) THEN "z" ELSE "x"
  ELSE IF p > "20.5" THEN
    IF Le(T, L3cd(p), k) THEN "c" ELSE IF Le(T, Tsat(p), k) THEN "s" ELSE IF Le(T, L3jk(p), k) THEN "r" ELSE "k"
  ELSE IF p > "19.00881189173929" THEN
    IF Le(T, L3cd(p), k) THEN "c" ELSE IF Le(T, Tsat(p), k) THEN "s" ELSE "t"
  ELSE IF Le(T, Tsat(p), k) THEN "c" ELSE "t"

\* v* p* T* a b c d e of each subregion
SubPar == [
  a |-> <<"0.0024", 100, 760, "0.085", "0.817", 1, 1, 1>>,
  b |-> <<"0.0041", 100, 860, "0.280", "0.779", 1, 1, 1>>,
  c |-> <<"0.0022", 40, 690, "0.259", "0.903", 1, 1, 1>>,
  d |-> <<"0.0029", 40, 690, "0.559", "0.939", 1, 1, 4>>,
  e |-> <<"0.0032", 40, 710, "0.587", "0.918", 1, 1, 1>>,
  f |-> <<"0.0064", 40, 730, "0.587", "0.891", "0.5", 1, 4>>,
  g |-> <<"0.0027", 25, 660, "0.872", "0.971", 1, 1, 4>>,
  h |-> <<"0.0032", 25, 660, "0.898", "0.983", 1, 1, 4>>,
  i |-> <<"0.0041", 25, 660, "0.910", "0.984", "0.5", 1, 4>>,
  j |-> <<"0.0054", 25, 670, "0.875", "0.964", "0.5", 1, 4>>,
  k |-> <<"0.0077", 25, 680, "0.802", "0.935", 1, 1, 1>>,
  l |-> <<"0.0026", 24, 650, "0.908", "0.989", 1, 1, 4>>,
  m |-> <<"0.0028", 23, 650, 1, "0.997", 1, "0.25", 1>>,
  o |-> <<"0.0034", 23, 650, "0.974", "0.996", "0.5", 1, 1>>,
  p |-> <<"0.0041", 23, 650, "0.972", "0.997", "0.5", 1, 1>>,
  q |-> <<"0.0022", 23, 650, "0.848", "0.983", 1, 1, 4>>,
  r |-> <<"0.0054", 23, 650, "0.874", "0.982", 1, 1, 1>>,
  s |-> <<"0.0022", 21, 640, "0.886", "0.990", 1, 1, 4>>,
  t |-> <<"0.0088", 20, 650, "0.803", "1.02", 1, 1, 1>>,
  u |-> <<"0.0026", 23, 650, "0.902", "0.988", 1, 1, 1>>,
  v |-> <<"0.0031", 23, 650, "0.960", "0.995", 1, 1, 1>>,
  w |-> <<"0.0039", 23, 650, "0.959", "0.995", 1, 1, 4>>,
  x |-> <<"0.0049", 23, 650, "0.910", "0.988", 1, 1, 1>>,
  y |-> <<"0.0031", 22, 650, "0.996", "0.994", 1, 1, 4>>,
  z |-> <<"0.0038", 22, 650, "0.993", "0.994", 1, 1, 4>>
]
SubTab(r) ==
  CASE r = "a" -> Tab_pT2v_3a
    [] r = "b" -> Tab_pT2v_3b
    [] r = "c" -> Tab_pT2v_3c
    [] r = "d" -> Tab_pT2v_3d
    [] r = "e" -> Tab_pT2v_3e
    [] r = "f" -> Tab_pT2v_3f
    [] r = "g" -> Tab_pT2v_3g
    [] r = "h" -> Tab_pT2v_3h
    [] r = "i" -> Tab_pT2v_3i
    [] r = "j" -> Tab_pT2v_3j
    [] r = "k" -> Tab_pT2v_3k
    [] r = "l" -> Tab_pT2v_3l
    [] r = "m" -> Tab_pT2v_3m
    [] r = "n" -> Tab_pT2v_3n
    [] r = "o" -> Tab_pT2v_3o
    [] r = "p" -> Tab_pT2v_3p
    [] r = "q" -> Tab_pT2v_3q
    [] r = "r" -> Tab_pT2v_3r
    [] r = "s" -> Tab_pT2v_3s
    [] r = "t" -> Tab_pT2v_3t
    [] r = "u" -> Tab_pT2v_3u
    [] r = "v" -> Tab_pT2v_3v
    [] r = "w" -> Tab_pT2v_3w
    [] r = "x" -> Tab_pT2v_3x
    [] r = "y" -> Tab_pT2v_3y
    [] r = "z" -> Tab_pT2v_3z
V3sub(p, T, r) ==
  IF r = "n" THEN "0.0031" * Exp(Poly(Tab_pT2v_3n, p / 23 - "0.976", T / 650 - "0.997"))
  ELSE LET q == SubPar[r] IN
       q[1] * Poly(SubTab(r), (p / q[2] - q[4]) ^ q[6], (T / q[3] - q[5]) ^ q[7]) ^ q[8]
V3(p, T, k) == V3sub(p, T, Sub3(p, T, k))

(* saturated liquid and vapour in region 3 *)
SubSatL(p) == IF p < "19.0088" THEN "c" ELSE IF p < "21.0434" THEN "s" ELSE IF p < "21.9316" THEN "u" ELSE "y"
SubSatV(p) == IF p < "20.5" THEN "t" ELSE IF p < "21.0434" THEN "r" ELSE IF p < "21.9009" THEN "x" ELSE "z"
=============================================================================
