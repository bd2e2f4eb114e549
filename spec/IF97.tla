-------------------------------- MODULE IF97 --------------------------------
(***************************************************************************)
(* The state functions of IAPWS-IF97: regions 1, 2, 5 (Gibbs energy),      *)
(* region 3 (Helmholtz energy), the saturation line, the boundaries, and   *)
(* every property of a single-phase state as what thermodynamics defines   *)
(* it to be in terms of the fundamental equation and its derivatives.      *)
(* Units: p MPa, T K, v m3/kg, energies kJ/kg, w m/s.                      *)
(***************************************************************************)
EXTENDS Real, Tables

R == "0.461526"
K0 == "273.15"
Tc == "647.096"
pc == "22.064"
dc == "322.0"
sc == "4.41202148223476"
Ttp == "273.16"                  \* reference temperature of the exergy
pmin == "0.000611212677444"      \* saturation pressure at 273.15 K
ps623 == "16.5291642526045"      \* saturation pressure at 623.15 K

\* property identifiers
OP == 0   OT == 1   OD == 2   OV == 3   OH == 4   OS == 5   OE == 6   OU == 7
OCP == 8  OCV == 9  OW == 10  OKS == 11 OF == 12  OG == 13  OZ == 14  OX == 15
OR == 16  OEC == 17 OKT == 18 ODVDT == 19 ODVDP == 20 ODPDT == 21 OIJTC == 22
OJTC == 23 ODV == 24 OKV == 25 OTC == 26 OTD == 27 OPR == 28 OST == 29 OSDC == 30
OPC == 31 OBETAP == 32 OFI == 33 OFU == 34 OALFAP == 35

Basic == {OD, OV, OH, OS, OU, OCP, OCV, OW}
Derived == {OE, OKS, OF, OG, OZ, OEC, OKT, ODVDT, ODVDP, ODPDT, OIJTC, OJTC, OPC, OBETAP, OFI, OFU, OALFAP}
Further == {ODV, OKV, OTC, OTD, OPR, OST, OSDC}
Mixture == {OD, OV, OH, OS, OU, OE, OF, OG}      \* what a wet-steam state has
AllIds == 0..35

INVALID_VALUE == -9999
INVALID_OUTID == -1000
INVALID_P == -2100
INVALID_T == -2101
INVALID_S == -2102
INVALID_H == -2103
ErrorCodes == {-9999, -1000, -2100, -2101, -2102, -2103, -2201, -2202}

-----------------------------------------------------------------------------
(* dimensionless Gibbs energy and derivatives <<g, gp, gt, gpp, gpt, gtt>> *)

G1(p, T) ==
  LET d == PolyD(T1, "7.1" - p / "16.53", 1386 / T - "1.222")
  IN  <<d[1], -d[2], d[3], d[4], -d[5], d[6]>>

IdealG(tab, p, tau) ==           \* ln(pi) + sum n tau^J, as a Gibbs tuple
  LET d == PolyD(tab, 1, tau)
  IN  <<Ln(p) + d[1], 1 / p, d[3], -(1 / (p * p)), 0, d[6]>>

Plus6(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4], a[5] + b[5], a[6] + b[6]>>

G2id(p, T) == IdealG(T2o, p, 540 / T)
G2(p, T) == Plus6(G2id(p, T), PolyD(T2r, p, 540 / T - "0.5"))
G5id(p, T) == IdealG(T5o, p, 1000 / T)
G5(p, T) == Plus6(G5id(p, T), PolyD(T5r, p, 1000 / T))

(* dimensionless Helmholtz energy of region 3, <<f, fd, ft, fdd, fdt, ftt>> *)
n1ln == "0.10658070028513e1"
F3(T, d) ==
  LET del == d / dc
      q == PolyD(T3, del, Tc / T)
  IN  <<n1ln * Ln(del) + q[1], n1ln / del + q[2], q[3], q[4] - n1ln / (del * del), q[5], q[6]>>

pstar(r) == IF r = 1 THEN "16.53" ELSE 1
Tstar(r) == CASE r = 1 -> 1386 [] r = 2 -> 540 [] r = 5 -> 1000
Gibbs(r, p, T) == CASE r = 1 -> G1(p, T) [] r = 2 -> G2(p, T) [] r = 5 -> G5(p, T)

-----------------------------------------------------------------------------
(* A single-phase state is a tuple of the quantities everything else is    *)
(* defined from:                                                           *)
(*  <<p, T, v, h, s, u, cp, cv, w, g, f, (dv/dT)p, (dv/dp)T, (dp/dT)v,     *)
(*    ln fugacity coefficient>>                                            *)
GState(r, p, T) ==
  LET g == Gibbs(r, p, T)
      ts == Tstar(r)
      pst == pstar(r)
      tau == ts / T
      pi == p / pst
      K == g[2] - tau * g[5]
      v == ((R * T * g[2]) / pst) / 1000
  IN << p, T, v,
        R * ts * g[3],
        R * (tau * g[3] - g[1]),
        R * (ts * g[3] - T * pi * g[2]),
        -(R * tau * tau * g[6]),
        R * ((K * K) / g[4] - tau * tau * g[6]),
        Sqrt((1000 * R * T * g[2] * g[2]) / ((K * K) / (tau * tau * g[6]) - g[4])),
        R * T * g[1],
        R * T * (g[1] - pi * g[2]),
        ((R * K) / pst) / 1000,
        (((R * T * g[4]) / pst) / pst) / 1000,
        -((pst * K) / (T * g[4])),
        \* fugacity: real minus ideal-gas Gibbs energy; the ideal-gas part is that of
        \* regions 2 and 5, on whose energy zero the whole formulation rests
        g[1] - (CASE r = 1 -> G2id(p, T)[1] [] r = 2 -> G2id(p, T)[1] [] r = 5 -> G5id(p, T)[1]) >>

HState(T, d) ==
  LET f == F3(T, d)
      tau == Tc / T
      del == d / dc
      L == f[2] - tau * f[5]
      M == 2 * f[2] + del * f[4]
      p == (R * T * d * del * f[2]) / 1000
      dvdp == -(1000 / (d * d * R * T * del * M))
  IN << p, T, 1 / d,
        R * T * (tau * f[3] + del * f[2]),
        R * (tau * f[3] - f[1]),
        R * Tc * f[3],
        R * ((del * L * L) / M - tau * tau * f[6]),
        -(R * tau * tau * f[6]),
        Sqrt(1000 * R * T * (del * M - (del * del * L * L) / (tau * tau * f[6]))),
        R * T * (f[1] + del * f[2]),
        R * T * f[1],
        L / (M * T * d),
        dvdp,
        (R * d * del * L) / 1000,
        f[1] + del * f[2] - G2id(p, T)[1] >>

\* names for the components
sP(S) == S[1]  sT(S) == S[2]  sV(S) == S[3]  sH(S) == S[4]  sS(S) == S[5]  sU(S) == S[6]
sCP(S) == S[7] sCV(S) == S[8] sW(S) == S[9]  sG(S) == S[10] sF(S) == S[11]
sVT(S) == S[12] sVP(S) == S[13] sPT(S) == S[14] sLnPhi(S) == S[15]

-----------------------------------------------------------------------------
(* transport and further properties of (density, temperature) *)
Viscosity(d, T) ==
  LET Tr == T / Tc
      Dr == d / dc
      s0 == Poly(Hi0, 1 / Tr, 1)
  IN  (((100 * Sqrt(Tr)) / s0) * Exp(Dr * Poly(Tab_viscosity, 1 / Tr - 1, Dr - 1))) / 1000000
ThCond(d, T) ==
  LET Tr == T / Tc
      Dr == d / dc
  IN  ((Sqrt(Tr) / Poly(Lk, 1 / Tr, 1)) * Exp(Dr * Poly(Lij, 1 / Tr - 1, Dr - 1))) / 1000
SurfTension(T) ==
  IF T \geq "248.15" /\ T \leq Tc
  THEN LET x == 1 - T / Tc IN ("235.8" * x ^ "1.256" * (1 - "0.625" * x)) / 1000
  ELSE INVALID_VALUE
Dielectric(d, T) ==
  LET kB == "1.380658e-23"  Na == "6.0221367e23"  al == "1.636e-40"
      e0 == "8.854187817e-12"  mu == "6.138e-30"  M == "0.018015268"
      Dr == d / dc
      Tr == Tc / T
      g == 1 + Poly(DielN, Dr, Tr) + "0.196096504426e-2" * Dr * (T / 228 - 1) ^ "-1.2"
      A == (((((Na * mu * mu) / M) / e0) / kB) * d * g) / T
      B == ((((Na * al) / 3) / M) / e0) * d
  IN  (1 + A + 5 * B + Sqrt(9 + 2 * A + 18 * B + A * A + 10 * A * B + 9 * B * B)) / (4 - 4 * B)

(* every property of a single-phase state S *)
Value(o, S) ==
  LET p == S[1]  T == S[2]  v == S[3] IN
  CASE o = OP -> p
    [] o = OT -> T - K0
    [] o = OD -> 1 / v
    [] o = OV -> v
    [] o = OH -> S[4]
    [] o = OS -> S[5]
    [] o = OU -> S[6]
    [] o = OCP -> S[7]
    [] o = OCV -> S[8]
    [] o = OW -> S[9]
    [] o = OG -> S[10]
    [] o = OF -> S[11]
    [] o = OE -> S[10] + (T - Ttp) * S[5]                    \* exergy h - T0 s
    [] o = OZ -> (1000 * p * v) / (R * T)                      \* compressibility factor
    [] o = OKS -> (S[9] * S[9]) / (1000000 * p * v)            \* isentropic exponent
    [] o = ODVDT -> S[12]
    [] o = ODVDP -> S[13]
    [] o = ODPDT -> S[14]
    [] o = OEC -> S[12] / v                                  \* (1/v)(dv/dT)p
    [] o = OKT -> -(S[13] / v)                               \* -(1/v)(dv/dp)T
    [] o = OIJTC -> 1000 * (v - T * S[12])                   \* (dh/dp)T, kJ/(kg MPa)
    [] o = OJTC -> (1000 * (T * S[12] - v)) / S[7]             \* (dT/dp)h, K/MPa
    [] o = OPC -> S[14] / p                                  \* (1/p)(dp/dT)v
    [] o = OBETAP -> -(1 / (p * S[13]))                      \* -(1/p)(dp/dv)T
    [] o = OALFAP -> -(S[12] / (p * S[13]))                  \* alpha/(p kappaT)
    [] o = OFI -> Exp(S[15])
    [] o = OFU -> p * Exp(S[15])
    [] o = ODV -> Viscosity(1 / v, T)
    [] o = OKV -> Viscosity(1 / v, T) * v
    [] o = OTC -> ThCond(1 / v, T)
    [] o = OTD -> ((ThCond(1 / v, T) * v) / S[7]) / 1000
    [] o = OPR -> (1000 * Viscosity(1 / v, T) * S[7]) / ThCond(1 / v, T)
    [] o = OST -> SurfTension(T)
    [] o = OSDC -> Dielectric(1 / v, T)
    [] OTHER -> INVALID_OUTID

-----------------------------------------------------------------------------
(* saturation line and region boundaries *)
n41 == "0.11670521452767E+04"   n42 == "-0.72421316703206E+06" n43 == "-0.17073846940092E+02"
n44 == "0.12020824702470E+05"   n45 == "-0.32325550322333E+07" n46 == "0.14915108613530E+02"
n47 == "-0.48232657361591E+04"  n48 == "0.40511340542057E+06"  n49 == "-0.23855557567849E+00"
n410 == "0.65017534844798E+03"
Psat(T) ==
  LET th == T + n49 / (T - n410)
      A == th * th + n41 * th + n42
      B == n43 * th * th + n44 * th + n45
      C == n46 * th * th + n47 * th + n48
  IN  ((2 * C) / (Sqrt(B * B - 4 * A * C) - B)) ^ 4
Tsat(p) ==
  LET b == p ^ "0.25"
      E == b * b + n43 * b + n46
      F == n41 * b * b + n44 * b + n47
      G == n42 * b * b + n45 * b + n48
      D == (2 * G) / (-F - Sqrt(F * F - 4 * E * G))
      N == n410 + D
  IN  (N - Sqrt(N * N - 4 * (n49 + n410 * D))) / 2

B23p(T) == "0.34805185628969e3" - "0.11671859879975e1" * T + "0.10192970039326e-2" * T * T
B23T(p) == "0.57254459862746e3" + Sqrt((p - "0.13918839778870e2") / "0.10192970039326e-2")
=============================================================================
