-------------------------------- MODULE Lib --------------------------------
(***************************************************************************)
(* The implementation, as the specification observes it.  Evaluating Call  *)
(* makes the call in the real library (engine/src/vf/LibOps.java and the   *)
(* harness crate): these operators are where a behaviour of the            *)
(* specification is replayed, step by step, in the code.                   *)
(***************************************************************************)
Call(pair, a, b, o)      == CHOOSE x : TRUE  \* the answer of pair(a, b, o)
CallR(pair, a, b, o, r)  == CHOOSE x : TRUE  \* the answer of pair(a, b, (o, r))
Solo(r)                  == CHOOSE x : TRUE  \* the answer of r = <<pair, a, b, o>> or <<pair, a, b, o, region>> in a process that makes no other request
(* the answers of a script of requests, in a process of its own: who[k] is the thread that makes script[k]; *)
(* mode 0: one after the other; mode 1: every thread its own, all at the same time, rep times over          *)
Run(mode, threads, rep, who, script) == CHOOSE x : TRUE
(* the C library lib ("cdecl64", "cdecl32", "stdcall32"), for each of ids: <<the answer, the answer of the Rust     *)
(* function in a program for the same processor, how many bytes of the arguments the callee took off the stack>> *)
CBind(lib, pair, a, b, ids) == CHOOSE x : TRUE
(* the function of that name of the Python package, for each of ids; of two arguments alone if there are none      *)
PyCall(name, a, b, ids) == CHOOSE x : TRUE
Bits(a, b)    == a = b                       \* bit-identical answers
Outcome(x)    == "num"                       \* "num", "nan", "inf", "panic" or, of a script, "unstable", "died", "hung"; of a binding also "missing"
(* Claim(site, ok, what): ok, recorded as evidence for what was compared at this site *)
Claim(site, ok, what) == ok
(* Excused(site, what): this named deviation is listed in known_findings.txt *)
Excused(site, what) == FALSE
Seen(key) == TRUE                            \* coverage counter
=============================================================================
