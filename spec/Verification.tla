----------------------------- MODULE Verification -----------------------------
(***************************************************************************)
(* The computer-program verification tables of the IAPWS releases, as      *)
(* assumptions on this specification: IAPWS-IF97 (R7-97), the supplements  *)
(* p(h,s) (SR2, SR4), T,v(p,h) and T,v(p,s) of region 3 (SR3) and v(p,T)   *)
(* of region 3 (SR5), the releases on viscosity (R12, mu2 = 1), thermal    *)
(* conductivity (R15, lambda2 = 0), surface tension (R1) and static        *)
(* dielectric constant (R8).  The specification's coefficient tables were  *)
(* taken over from the package once; these numbers were not.  TLC checks   *)
(* them before every exploration; nothing here depends on the code.        *)
(***************************************************************************)
EXTENDS Api
IsAs(x, y) == Abs(x - y) \leq "5e-9" * Abs(y)                \* the nine or ten digits of the tables
IsTo(x, y, tol) == Abs(x - y) \leq tol * Abs(y)

\* R7-97 tables 5, 15, 42: <<region, T, p, v, h, u, s, cp, w>>; table 33: <<3, T, rho, p, h, u, s, cp, w>>
States == <<
  <<1, 300, 3, "0.100215168e-2", "0.115331273e3", "0.112324818e3", "0.392294792", "0.417301218e1", "0.150773921e4">>,
  <<1, 300, 80, "0.971180894e-3", "0.184142828e3", "0.106448356e3", "0.368563852", "0.401008987e1", "0.163469054e4">>,
  <<1, 500, 3, "0.120241800e-2", "0.975542239e3", "0.971934985e3", "0.258041912e1", "0.465580682e1", "0.124071337e4">>,
  <<2, 300, "0.0035", "0.394913866e2", "0.254991145e4", "0.241169160e4", "0.852238967e1", "0.191300162e1", "0.427920172e3">>,
  <<2, 700, "0.0035", "0.923015898e2", "0.333568375e4", "0.301262819e4", "0.101749996e2", "0.208141274e1", "0.644289068e3">>,
  <<2, 700, 30, "0.542946619e-2", "0.263149474e4", "0.246861076e4", "0.517540298e1", "0.103505092e2", "0.480386523e3">>,
  <<3, 650, 500, "0.255837018e2", "0.186343019e4", "0.181226279e4", "0.405427273e1", "0.138935717e2", "0.502005554e3">>,
  <<3, 650, 200, "0.222930643e2", "0.237512401e4", "0.226365868e4", "0.485438792e1", "0.446579342e2", "0.383444594e3">>,
  <<3, 750, 500, "0.783095639e2", "0.225868845e4", "0.210206932e4", "0.446971906e1", "0.634165359e1", "0.760696041e3">>,
  <<5, 1500, "0.5", "0.138455090e1", "0.521976855e4", "0.452749310e4", "0.965408875e1", "0.261609445e1", "0.917068690e3">>,
  <<5, 1500, 30, "0.230761299e-1", "0.516723514e4", "0.447495124e4", "0.772970133e1", "0.272724317e1", "0.928548002e3">>,
  <<5, 2000, 30, "0.311385219e-1", "0.657122604e4", "0.563707038e4", "0.853640523e1", "0.288569882e1", "0.106736948e4">> >>
StateOK(r) == LET S == (IF r[1] = 3 THEN HState(r[2], r[3]) ELSE GState(r[1], r[3], r[2])) IN
  /\ IsTo(IF r[1] = 3 THEN S[1] ELSE S[3], r[4], "4e-9") /\ IsTo(S[4], r[5], "4e-9") /\ IsTo(S[6], r[6], "4e-9")
  /\ IsTo(S[5], r[7], "4e-9") /\ IsTo(S[7], r[8], "4e-9") /\ IsTo(S[9], r[9], "4e-9")
ASSUME \A k \in 1 .. Size(States) : StateOK(States[k])

\* each row a value of the specification and the published one
Saturation == <<
  <<Psat(300), "0.353658941e-2">>, <<Psat(500), "0.263889776e1">>, <<Psat(600), "0.123443146e2">>,
  <<Tsat("0.1"), "0.372755919e3">>, <<Tsat(1), "0.453035632e3">>, <<Tsat(10), "0.584149488e3">>,
  <<B23p("623.15"), "0.165291643e2">>, <<B23T("0.165291643e2"), "0.62315e3">> >>
BackwardT == <<
  <<T1ph(3, 500), "0.391798509e3">>, <<T1ph(80, 500), "0.378108626e3">>, <<T1ph(80, 1500), "0.611041229e3">>,
  <<T1ps(3, "0.5"), "0.307842258e3">>, <<T1ps(80, "0.5"), "0.309979785e3">>, <<T1ps(80, 3), "0.565899909e3">>,
  <<T2ph("0.001", 3000, 0), "0.534433241e3">>, <<T2ph(3, 3000, 0), "0.575373370e3">>, <<T2ph(3, 4000, 0), "0.101077577e4">>,
  <<T2ph(5, 3500, 0), "0.801299102e3">>, <<T2ph(5, 4000, 0), "0.101531583e4">>, <<T2ph(25, 3500, 0), "0.875279054e3">>,
  <<T2ph(40, 2700, 0), "0.743056411e3">>, <<T2ph(60, 2700, 0), "0.791137067e3">>, <<T2ph(60, 3200, 0), "0.882756860e3">>,
  <<T2ps("0.1", "7.5"), "0.399517097e3">>, <<T2ps("0.1", 8), "0.514127081e3">>, <<T2ps("2.5", 8), "0.103984917e4">>,
  <<T2ps(8, 6), "0.600484040e3">>, <<T2ps(8, "7.5"), "0.106495556e4">>, <<T2ps(90, 6), "0.103801126e4">>,
  <<T2ps(20, "5.75"), "0.697992849e3">>, <<T2ps(80, "5.25"), "0.854011484e3">>, <<T2ps(80, "5.75"), "0.949017998e3">>,
  <<h2bc("0.100e3"), "0.3516004323e4">> >>
BackwardHS == <<
  <<p1hs("0.001", 0), "9.800980612e-4">>, <<p1hs(90, 0), "91.92954727">>, <<p1hs(1500, "3.4"), "58.68294423">>,
  <<p2hs(2800, "6.5", 0), "1.371012767">>, <<p2hs(2800, "9.5", 0), "1.879743844e-3">>, <<p2hs(4100, "9.5", 0), "0.1024788997">>,
  <<p2hs(2800, 6, 0), "4.793911442">>, <<p2hs(3600, 6, 0), "83.95519209">>, <<p2hs(3600, 7, 0), "7.527161441">>,
  <<p2hs(2800, "5.1", 0), "94.39202060">>, <<p2hs(2800, "5.8", 0), "8.414574124">>, <<p2hs(3400, "5.8", 0), "83.76903879">>,
  <<h2ab(7), "3376.437884">>,
  <<p3hs(1700, "3.8"), "25.55703246">>, <<p3hs(2000, "4.2"), "45.40873468">>, <<p3hs(2100, "4.3"), "60.78123340">>,
  <<p3hs(2600, "5.1"), "34.34999263">>, <<p3hs(2400, "4.7"), "63.63924887">>, <<p3hs(2700, 5), "88.39043281">>,
  <<h1sat_s(1), "308.5509647">>, <<h1sat_s(2), "700.6304472">>, <<h1sat_s(3), "1198.359754">>,
  <<h3asat_s("3.8"), "1685.025565">>, <<h3asat_s(4), "1816.891476">>, <<h3asat_s("4.2"), "1949.352563">>,
  <<h2absat_s(7), "2723.729985">>, <<h2absat_s(8), "2599.047210">>, <<h2absat_s(9), "2511.861477">>,
  <<h2c3bsat_s("5.5"), "2687.693850">>, <<h2c3bsat_s(5), "2451.623609">>, <<h2c3bsat_s("4.5"), "2144.360448">>,
  <<hB13_s("3.7"), "1632.525047">>, <<hB13_s("3.6"), "1593.027214">>, <<hB13_s("3.5"), "1566.104611">>,
  <<TB23_hs(2600, "5.1"), "713.5259364">>, <<TB23_hs(2700, "5.15"), "768.5345532">>, <<TB23_hs(2800, "5.2"), "817.6202120">>,
  <<T4hs(1800, "5.3"), "346.8475498">>, <<T4hs(2400, 6), "425.1373305">>, <<T4hs(2500, "5.5"), "522.5579013">> >>
Backward3 == <<
  <<T3ph(20, 1700, 0), "629.3083892">>, <<T3ph(50, 2000, 0), "690.5718338">>, <<T3ph(100, 2100, 0), "733.6163014">>,
  <<T3ph(20, 2500, 0), "641.8418053">>, <<T3ph(50, 2400, 0), "735.1848618">>, <<T3ph(100, 2700, 0), "842.0460876">>,
  <<v3ph(20, 1700, 0), "1.749903962e-3">>, <<v3ph(50, 2000, 0), "1.908139035e-3">>, <<v3ph(100, 2100, 0), "1.676229776e-3">>,
  <<v3ph(20, 2500, 0), "6.670547043e-3">>, <<v3ph(50, 2400, 0), "2.801244590e-3">>, <<v3ph(100, 2700, 0), "2.404234998e-3">>,
  <<T3ps(20, "3.8"), "628.2959869">>, <<T3ps(50, "3.6"), "629.7158726">>, <<T3ps(100, 4), "705.6880237">>,
  <<T3ps(20, 5), "640.1176443">>, <<T3ps(50, "4.5"), "716.3687517">>, <<T3ps(100, 5), "847.4332825">>,
  <<v3ps(20, "3.8"), "1.733791463e-3">>, <<v3ps(50, "3.6"), "1.469680170e-3">>, <<v3ps(100, 4), "1.555893131e-3">>,
  <<v3ps(20, 5), "6.262101987e-3">>, <<v3ps(50, "4.5"), "2.332634294e-3">>, <<v3ps(100, 5), "2.449610757e-3">>,
  <<p3sat_h(1700), "17.24175718">>, <<p3sat_h(2000), "21.93442957">>, <<p3sat_h(2400), "20.18090839">>,
  <<p3sat_s("3.8"), "16.87755057">>, <<p3sat_s("4.2"), "21.64451789">>, <<p3sat_s("5.2"), "16.68968482">>,
  <<h3ab(25), "2095.936454">> >>
Lines3 == <<
  <<L3ab(40), "693.0341408">>, <<L3cd(25), "649.3659208">>, <<L3ef(40), "713.9593992">>, <<L3gh(23), "649.8873759">>,
  <<L3ij(23), "651.5778091">>, <<L3jk(23), "655.8338344">>, <<L3mn("22.8"), "649.6054133">>, <<L3op("22.8"), "650.0106943">>,
  <<L3qu(22), "645.6355027">>, <<L3rx(22), "648.2622754">>, <<L3uv("22.3"), "647.7996121">>, <<L3wx("22.3"), "648.2049480">> >>
ValuesOK(rows) == \A k \in 1 .. Size(rows) : IsAs(rows[k][1], rows[k][2])
ASSUME ValuesOK(Saturation)
ASSUME ValuesOK(BackwardT)
ASSUME ValuesOK(BackwardHS)
ASSUME ValuesOK(Backward3)
ASSUME ValuesOK(Lines3)

\* SR5-05: <<subregion, p, T, v>>
Volumes == <<
  <<"a", 50, 630, "1.470853100e-3">>, <<"a", 80, 670, "1.503831359e-3">>, <<"b", 50, 710, "2.204728587e-3">>, <<"b", 80, 750, "1.973692940e-3">>,
  <<"c", 20, 630, "1.761696406e-3">>, <<"c", 30, 650, "1.819560617e-3">>, <<"d", 26, 656, "2.245587720e-3">>, <<"d", 30, 670, "2.506897702e-3">>,
  <<"e", 26, 661, "2.970225962e-3">>, <<"e", 30, 675, "3.004627086e-3">>, <<"f", 26, 671, "5.019029401e-3">>, <<"f", 30, 690, "4.656470142e-3">>,
  <<"g", "23.6", 649, "2.163198378e-3">>, <<"g", 24, 650, "2.166044161e-3">>, <<"h", "23.6", 652, "2.651081407e-3">>, <<"h", 24, 654, "2.967802335e-3">>,
  <<"i", "23.6", 653, "3.273916816e-3">>, <<"i", 24, 655, "3.550329864e-3">>, <<"j", "23.5", 655, "4.545001142e-3">>, <<"j", 24, 660, "5.100267704e-3">>,
  <<"k", 23, 660, "6.109525997e-3">>, <<"k", 24, 670, "6.427325645e-3">>, <<"l", "22.6", 646, "2.117860851e-3">>, <<"l", 23, 646, "2.062374674e-3">>,
  <<"m", "22.6", "648.6", "2.533063780e-3">>, <<"m", "22.8", "649.3", "2.572971781e-3">>, <<"n", "22.6", "649.0", "2.923432711e-3">>, <<"n", "22.8", "649.7", "2.913311494e-3">>,
  <<"o", "22.6", "649.1", "3.131208996e-3">>, <<"o", "22.8", "649.9", "3.221160278e-3">>, <<"p", "22.6", "649.4", "3.715596186e-3">>, <<"p", "22.8", "650.2", "3.664754790e-3">>,
  <<"q", "21.1", 640, "1.970999272e-3">>, <<"q", "21.8", 643, "2.043919161e-3">>, <<"r", "21.1", 644, "5.251009921e-3">>, <<"r", "21.8", 648, "5.256844741e-3">>,
  <<"s", "19.1", 635, "1.932829079e-3">>, <<"s", 20, 638, "1.985387227e-3">>, <<"t", 17, 626, "8.483262001e-3">>, <<"t", 20, 640, "6.227528101e-3">>,
  <<"u", "21.5", "644.6", "2.268366647e-3">>, <<"u", 22, "646.1", "2.296350553e-3">>, <<"v", "22.5", "648.6", "2.832373260e-3">>, <<"v", "22.3", "647.9", "2.811424405e-3">>,
  <<"w", "22.15", "647.5", "3.694032281e-3">>, <<"w", "22.3", "648.1", "3.622226305e-3">>, <<"x", "22.11", "648.0", "4.528072649e-3">>, <<"x", "22.3", "649.0", "4.556905799e-3">>,
  <<"y", 22, "646.84", "2.698354719e-3">>, <<"y", "22.064", "647.05", "2.717655648e-3">>, <<"z", 22, "646.89", "3.798732962e-3">>, <<"z", "22.064", "647.15", "3.701940010e-3">> >>
ASSUME \A k \in 1 .. Size(Volumes) : LET q == Volumes[k] IN IsAs(V3sub(q[2], q[3], q[1]), q[4]) /\ Sub3(q[2], q[3], 0) = q[1]

\* R12-08 table 4 <<T, rho, mu in 1e-6 Pa s>>; R15-11 table 4 <<T, rho, lambda in 1e-3 W/(m K)>>
Mu == << <<"298.15", 998, "889.735100">>, <<"298.15", 1200, "1437.649467">>, <<"373.15", 1000, "307.883622">>, <<"433.15", 1, "14.538324">>,
         <<"433.15", 1000, "217.685358">>, <<"873.15", 1, "32.619287">>, <<"873.15", 100, "35.802262">>, <<"873.15", 600, "77.430195">>,
         <<"1173.15", 1, "44.217245">>, <<"1173.15", 100, "47.640433">>, <<"1173.15", 400, "64.154608">> >>
Lambda == << <<"298.15", "1e-9", "18.4341883">>, <<"298.15", 998, "607.712868">>, <<"298.15", 1200, "799.038144">>, <<"873.15", "1e-9", "79.1034659">> >>
ASSUME \A k \in 1 .. Size(Mu) : IsTo(1000000 * Viscosity(Mu[k][2], Mu[k][1]), Mu[k][3], "4e-8")
ASSUME \A k \in 1 .. Size(Lambda) : IsTo(1000 * ThCond(Lambda[k][2], Lambda[k][1]), Lambda[k][3], "4e-9")
\* R1-76 (2014) in mN/m at two digits; R8-97 at the IF97 density
Sigma == << <<"300", "71.69">>, <<"450", "42.88">>, <<"600", "8.37">> >>
ASSUME \A k \in 1 .. Size(Sigma) : Abs(1000 * SurfTension(Sigma[k][1]) - Sigma[k][2]) \leq "0.02"
Eps == << <<300, 1 / GState(1, "0.1", 300)[3], "77.74735">>, <<300, 1 / GState(1, 10, 300)[3], "78.11269">> >>
ASSUME \A k \in 1 .. Size(Eps) : LET e == Eps[k] IN IsTo(Dielectric(e[2], e[1]), e[3], "2e-4")

\* consistency of the boundaries with each other
ASSUME IsTo(Psat("623.15"), ps623, "1e-12") /\ IsTo(Psat(K0), pmin, "1e-9")
=============================================================================
