#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one list (python3 tools/mkprops.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "src/"
def P(i, title, statement, over, text, why, files, mech, state=(), observe=(), level=None):
    return dict(id=i, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                         "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None})
PAIRS = ["src/rust_if97.rs"]
L = [
P("C01", "Basic properties from (p,t) are those of IAPWS-IF97",
  "For every pressure and temperature inside regions 1, 2, 3 and 5, pt answers v, d, h, s, u, cp, cv, w, f, g and the other closed forms of the region's fundamental equation, with the IAPWS-IF97 (2007) coefficients and formulas, to rounding error. In region 3 the density is the one given by the IAPWS v(p,T) subregion equations; temperature is in degrees Celsius, pressure in MPa, h, u, f, g in kJ/kg and s, cp, cv in kJ/(kg K).",
  ["inputs"], "every (p,t) in the four single-phase regions, every basic property id",
  "the tests compare 3 to 9 table points per region; a wrong term that vanishes there, or a coefficient whose error is below the printed digits, is invisible",
  ["src/r1", "src/r2", "src/r3", "src/r5", "src/algo"],
  [("fundamental equations and derivatives", "src/r1/region1_gfe.rs, src/r2/region2_gfe.rs, src/r3/region3_hfe.rs, src/r5/region5_gfe.rs"), ("fast polynomial sums", "src/algo/polynomial_steps.rs")],
  observe=["pt"]),
P("C02", "Every (p,t) is placed in the right region",
  "For every pressure and temperature pt reports the region IAPWS-IF97 gives: 1, 2, 3 or 5 with the boundary pressures, temperatures, the saturation line and the region 2-3 boundary, 4 on the saturation line itself (within 1e-6 of the saturation pressure), and the documented negative code outside. The properties of a point are those of that region, on both sides of every boundary up to the last place.",
  ["inputs"], "every (p,t), in particular at every distance from every boundary",
  "tests hold a dozen points well inside the regions; a boundary compared with the wrong constant or the wrong strictness differs only in a sliver",
  ["src/common/region.rs", "src/common/boundaries.rs", "src/r4/region4_sat_pT.rs"], [("region of (p,t)", "src/common/region.rs"), ("B23 and saturation equations", "src/common/boundaries.rs, src/r4/region4_sat_pT.rs")], observe=["pt(.., OR)"]),
P("C03", "(p,h) and (p,s) give the IF97 state in regions 1, 2, 3 and 5",
  "For every (p,h) and (p,s) of a single-phase state, the answer is the state given by the IF97 backward equations T(p,h), T(p,s), v(p,h), v(p,s) of regions 1, 2 and 3, evaluated in the fundamental equation as the package documents, and in region 5 the state that reproduces p and h or s to 1e-6. All properties of an answer belong to that one state, and the given inputs are returned as they were given.",
  ["inputs"], "every (p,h) and (p,s) of regions 1, 2, 3 and 5, on both sides of the subregion boundaries 2a/2b/2c and 3a/3b",
  "tests hold 3 points per backward equation; the choice of equation near its boundary and properties other than T and v are untested",
  ["src/r1", "src/r2", "src/r3", "src/r5", "src/common/region.rs"], [("backward equations", "src/r1/region1_T_phps.rs, src/r2/region2_T_ph.rs, src/r2/region2_T_ps.rs, src/r3/region3_Tv_phps.rs"), ("region 5 iteration", "src/r5/region5_ph_ps_hs.rs, src/algo/root.rs")], observe=["ph", "ps"]),
P("C04", "(h,s) gives the IF97 state in regions 1, 2, 3, 4 and 5",
  "For every (h,s) of a state of regions 1 to 5, the answer is the state given by the IF97 backward equations p(h,s) of regions 1, 2 and 3 and T(h,s) of region 4 where they are defined, and elsewhere (wet steam of low entropy, region 5) a state that reproduces both inputs to 1e-5. All properties of an answer belong to that one state.",
  ["inputs"], "every (h,s) of the domain, on both sides of the boundaries of regions and subregions",
  "tests hold 3 points per equation and none in region 5 or in wet steam below the equation's range; non-termination needs particular inputs",
  ["src/r1/region1_p_hs.rs", "src/r2/region2_p_hs.rs", "src/r3/region3_p_hs.rs", "src/r4", "src/r5/region5_ph_ps_hs.rs", "src/common"], [("backward equations", "src/r1/region1_p_hs.rs, src/r2/region2_p_hs.rs, src/r3/region3_p_hs.rs, src/r4/region4_T_hs.rs"), ("boundaries in h and s", "src/common/boundaries.rs")], observe=["hs"]),
P("C05", "(p,v), (t,v), (t,h) and (t,s) give states that reproduce their inputs",
  "For every (p,v), (t,v), (t,h) or (t,s) of a single-phase state, the answer's state reproduces both inputs within what a step of 1e-8 of the solver leaves, and every property answered is the fundamental equation's at that one state. (p,v) of liquid water below the volume at 0 degrees Celsius, and (t,h) where the liquid has a second solution, may answer the other solution or reject.",
  ["inputs"], "every input of the four pairs in regions 1, 2, 3 and 5",
  "tests hold a few points per region; whether an iteration converges everywhere, and to the right root, needs every input",
  ["src/r1/region1_pair_ext.rs", "src/r2/region2_pair_ext.rs", "src/r3/region3_pair_ext.rs", "src/r5/region5_pair_ext.rs", "src/algo/root.rs"], [("solvers", "src/algo/root.rs"), ("initial values", "src/r1/region1_pair_ext.rs, src/r2/region2_pair_ext.rs, src/r3/region3_pair_ext.rs")], observe=["pv", "tv", "th", "ts"]),
P("C06", "The saturation line: T(p), p(T), saturated liquid and steam",
  "For every pressure from 0.000611213 MPa and every temperature from 0 degrees Celsius to the critical point, (p,x) and (t,x) with x = 0 and x = 1 answer the saturation temperature and pressure of the IF97 equation and the properties of the saturated liquid and steam: regions 1 and 2 up to 623.15 K and region 3 above it. The two pairs agree with each other, and saturation pressure and temperature are inverse to each other.",
  ["inputs"], "every saturation pressure and temperature, every property",
  "tests hold three points of each equation; region 3's saturated volumes have nine equations of their own",
  ["src/r4"], [("saturation equation", "src/r4/region4_sat_pT.rs"), ("saturated states", "src/r4/region4_pTx.rs, src/r3/region3_v_subregion_pT.rs")], observe=["px", "tx"]),
P("C07", "Wet steam is the lever-rule mixture, for every pair that can reach it",
  "For every state of wet steam, (p,h), (p,s), (p,v), (t,h), (t,s), (t,v), (h,s), (p,x), (t,x), (h,x) and (s,x) answer the saturation pressure and temperature, the quality, and the specific properties of the mixture of saturated liquid and steam (v, h, s, u, cp, cv, f, g, e by mass fraction, d = 1/v; -1000 for what a mixture does not define). (h,x) and (s,x) answer -1000 where no saturated state has that property.",
  ["inputs"], "every saturation state and every quality from 0 to 1, all eleven pairs",
  "tests hold a few wet points of (p,h), (p,s), (p,v) and (h,s); solver-based pairs and states above 623.15 K are hardly sampled",
  ["src/r4"], [("lever rule", "src/r4/region4_pTx.rs"), ("quality from the pairs", "src/r4/region4_pair_ext.rs")], observe=["all pairs but pt"]),
P("C08", "Derived thermodynamic properties follow from the state",
  "For every single-phase state, however it is given, exergy, isentropic exponent, compressibility factor, fugacity and its coefficient, expansion and compressibility coefficients, the partial derivatives, Joule-Thomson and throttling coefficients, pressure coefficients and the other derived properties are those the definition in the documentation gives at that state, in the documented unit.",
  ["inputs"], "every state of regions 1, 2, 3 and 5 and every derived property id",
  "tests compare single values of a few derived properties against the program's own output",
  ["src/r1/region1_pT_ext.rs", "src/r2/region2_pT_ext.rs", "src/r3/region3_Td_ext.rs", "src/r5/region5_pT_ext.rs", "src/common/propertry_id.rs"], [("derived properties", "src/r*/region*_ext.rs")], observe=["all pairs"]),
P("C09", "Transport and further properties follow their IAPWS releases",
  "For every single-phase state, however it is given, dynamic viscosity, thermal conductivity, dielectric constant, surface tension, kinematic viscosity, thermal diffusivity and Prandtl number are those of the IAPWS releases the documentation names, at the density and temperature of that state, in the documented unit.",
  ["inputs"], "every state of regions 1, 2, 3 and 5 and every transport property id",
  "tests hold a dozen release table points of the functions of density and temperature, none through the pairs of regions 2, 3 and 5",
  ["src/common/transport_further.rs"], [("releases", "src/common/transport_further.rs")], observe=["all pairs"]),
P("C10", "Region 3 volume: the right subregion equation for every (p,T)",
  "For every pressure and temperature of region 3, the specific volume is that of the IAPWS supplementary release on v(p,T): the subregion 3a to 3z that the release's boundary equations give, evaluated with its coefficients. On both sides of every subregion boundary, and next to the critical point, the volume satisfies the fundamental equation within the release's tolerance.",
  ["inputs"], "every (p,T) of region 3, both sides of all 26 subregion boundaries",
  "tests hold two points for each subregion and none on the boundaries; a boundary moved, or two subregions overlapping, is outside them",
  ["src/r3/region3_v_subregion_pT.rs", "src/r3/region3_v_pT.rs"], [("subregion boundaries", "src/r3/region3_v_pT.rs"), ("subregion equations", "src/r3/region3_v_subregion_pT.rs")], observe=["pt", "px", "tx"]),
P("C11", "All pairs place one state in the same region, the right one",
  "For every state, each pair that can express it reports the region IAPWS-IF97 gives the state, with boundaries of the pair's own quantities ((p,h), (p,s), (p,v), (t,h), (t,s), (t,v), (h,s)), including inputs next to the boundaries, the critical point and outside the domain.",
  ["inputs"], "every input of the seven pairs, at every distance from every boundary",
  "tests check the region of a few points per pair; an input in the wrong region is answered plausibly by the wrong equation",
  ["src/common/region.rs", "src/common/boundaries.rs"], [("regions of pairs", "src/common/region.rs"), ("boundaries", "src/common/boundaries.rs")], observe=["all pairs (.., OR)"]),
P("C12", "Requests are dispatched as documented: ids, echoes, named regions",
  "For every input pair and property id, an id that is one of the inputs returns the input as given, an unknown id returns the documented invalid code and nothing else, and a named region makes the answer that of the named region's equations, the same as without naming it where the state lies in it. The region and the quality reported fit the state.",
  ["inputs"], "every pair, every id (known or not), every region argument, every state",
  "tests use a handful of ids per pair and name a region in only a few calls",
  ["src/rust_if97.rs", "src/common/propertry_pairs.rs", "src/common/propertry_id.rs"], [("dispatch", "src/rust_if97.rs"), ("ids", "src/common/propertry_id.rs")], observe=["all pairs"]),
P("C13", "Every call returns: no panic, no endless loop, no NaN for finite inputs",
  "Every call with any two numbers, any id and any region argument returns in bounded time without panicking, and for finite inputs with no region named it returns a finite number, whether a property or a rejection code.",
  ["inputs"], "all doubles including NaN, infinities, zeros, subnormals and values next to every constant, all ids",
  "tests only ask inside the domain",
  ["src/rust_if97.rs", "src/algo/root.rs", "src/common/region.rs"], [("rejection of inputs outside the domain", "src/common/region.rs"), ("bounded iteration", "src/algo/root.rs")], observe=["all pairs"]),
P("C14", "Answers depend on the arguments only: not on history or other threads",
  "Whatever requests were made before, in whatever order, on whatever thread, and whatever other threads are asking at the same time, a request is answered bit for bit as it is in a process that has made no other request.",
  ["histories", "schedules"], "all sequences of requests over a pool of requests, in one thread, alternating over threads and concurrent",
  "tests make each request once, on one thread at a time, in one fixed order",
  ["src/rust_if97.rs", "src/algo", "src/common", "src/r1", "src/r2", "src/r3", "src/r4", "src/r5"], [("no state kept between calls", "whole crate")], observe=["all pairs"]),
P("C15", "The C libraries answer as the Rust functions",
  "Every exported C function (cdecl and stdcall: pt, ph, ps, pv, th, ts, tv, hs, px, tx, hx, sx) exists under its documented name with the documented C types and calling convention, and returns for every pair of doubles and every short id the number the Rust function of the same name returns.",
  ["inputs", "configurations"], "every exported function, input and id, both build features",
  "the tests never build the C features",
  ["src/cdecl_c_if97.rs", "src/stdcall_c_if97.rs"], [("wrappers", "src/cdecl_c_if97.rs, src/stdcall_c_if97.rs")], observe=["exported symbols"]),
P("C16", "The Python package answers as the Rust functions",
  "Every function of the Python extension module, and every helper of the Python package (pt2h, ph2t, px2v and the like), returns for every input the number the Rust function returns for the property its name says, at the arguments in the order its name says.",
  ["inputs", "configurations"], "every function and helper of the package, every input",
  "the tests never build the Python feature or import the package",
  ["src/python_if97.rs", "python/seuif97"], [("wrappers", "src/python_if97.rs, python/seuif97/__init__.py")], observe=["Python functions"]),
P("C17", "Answers obey thermodynamics and are continuous across boundaries",
  "For every state, the properties of one answer satisfy h = u + p v, g = h - T s, f = u - T s, cp - cv = T v alpha^2/kappa, w and the isentropic exponent consistent with the derivatives, cp >= cv > 0 and kappa > 0; along lines of constant temperature or pressure, v, h and s move in the direction their derivatives say. Across region boundaries they differ by no more than the tolerances IAPWS-IF97 documents.",
  ["inputs"], "every state, and neighbouring states along isotherms and isobars",
  "tests compare single values; relations between properties and between neighbouring states are never asserted",
  ["src/r1", "src/r2", "src/r3", "src/r4", "src/r5"], [("fundamental equations", "src/r*/region*_gfe.rs, src/r3/region3_hfe.rs")], observe=["all pairs"]),
P("C18", "Round trips between pairs return the state within IF97 tolerances",
  "For every state, taking properties from one pair and asking another pair with them returns the same state: within 25 mK for T(p,h) and T(p,s), the documented tolerances of p(h,s) and v(p,h), v(p,s), and to the solver's 1e-6 where the package iterates.",
  ["inputs"], "every state and every combination of two pairs",
  "tests never feed one answer to another pair",
  ["src/rust_if97.rs", "src/r1", "src/r2", "src/r3", "src/r4", "src/r5"], [("backward equations and iterations", "src/r*")], observe=["all pairs"]),
P("C19", "Inputs outside the domain are rejected with the documented code",
  "Every input of every pair outside the validity range of IAPWS-IF97 (above 100 MPa, above 50 MPa in region 5, below 0 degrees Celsius, above 2000 degrees Celsius, enthalpies, entropies, volumes and qualities no state has) is answered with the package's negative invalid code for every computed property, and no input inside the range is.",
  ["inputs"], "every input outside and at every distance from the limits",
  "tests hold no input outside the domain for most pairs",
  ["src/common/region.rs", "src/common/constant.rs", "src/rust_if97.rs"], [("limits", "src/common/region.rs, src/common/boundaries.rs, src/common/constant.rs"), ("invalid codes", "src/common/constant.rs")], observe=["all pairs"]),
]
TECH = {"C14": "TLA+ state machine of request histories and schedules, TLC; every transition replayed in the library",
        "C15": "TLA+ specification, TLC; every explored request replayed through the C exports", "C16": "TLA+ specification, TLC; every explored request replayed through the Python package"}
NOTE = "Exhaustive over the stated finite families of requests (every boundary at distances from one last place to 1 %, interior grids, every numeric literal of the source, jittered by VERIF_SEED); between them, no claim. Trusts TLC, the interval-of-rounding arithmetic of the overrides (engine/) and the transcription of the IAPWS tables."
NOTES = {}
OPEN = [p["id"] for p in L if not os.path.exists(os.path.join(V, "spec", "MC_%s.tla" % p["id"]))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in L:
    i = p["id"]
    if i in OPEN:
        m["not_applicable"].append({"property": i, "reason": "the module of the specification for it is not written yet"})
    else:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "technique": TECH.get(i, "TLA+ specification of IAPWS-IF97 and the interface, TLC; every explored request replayed in the library"),
                            "level": "model_checking", "level_note": NOTES.get(i, NOTE)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("open:", OPEN)
