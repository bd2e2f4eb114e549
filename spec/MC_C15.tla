------------------------------- MODULE MC_C15 -------------------------------
(* C15: the C libraries: every request through the exported functions of the three builds (cdecl for 64-bit and 32-bit x86, *)
(* stdcall for 32-bit x86, run in 32-bit processes), held against the Rust function in a program for the same processor.    *)
EXTENDS Checks
D == Scale(10, 40)
Libs == {"cdecl64", "cdecl32", "stdcall32"}
S_ == PTs({"r1", "r2", "r3", "r3c", "r5", "sat", "b23", "corner", "out"}) \union Wets({"wet", "wethi", "wettop"})
      \union Directs(Pairs, {"wild"}) \union Directs(Pairs \ {"pt"}, {"box", "out"}) \union Directs(Pairs, {"ids"})
\* "ids": every short, in chunks
Chunk == 512
NC == Div(65536, Chunk)
R_(f) == IF f[2] = "ids" THEN 3 ELSE RowsA(f, D)
C_(f) == IF f[2] = "ids" THEN NC ELSE ColsA(f, D)
\* a state for every pair, one outside, one not a number
IdState(pair, i_) ==
  CASE i_ = 0 -> (CASE pair = "pt" -> <<3, 300>> [] pair = "ph" -> <<30, 2000>> [] pair = "ps" -> <<1, 3>> [] pair = "hs" -> <<500, "1.5">> [] pair = "pv" -> <<"0.1", "3.2">>
                    [] pair = "tv" -> <<500, "0.003">> [] pair = "th" -> <<200, 2000>> [] pair = "ts" -> <<1000, 9>> [] pair = "px" -> <<10, "0.5">> [] pair = "tx" -> <<360, 0>>
                    [] pair = "hx" -> <<1500, "0.25">> [] pair = "sx" -> <<4, "0.5">>)
    [] i_ = 1 -> <<-5, "5e4">>
    [] i_ = 2 -> <<NaN, 1>>
W_(f, i_, j_) == IF f[1] = "pt" /\ f[2] \notin {"wild", "ids"} THEN WhereIs(f, PointA(f, i_, j_, D)) ELSE 0
P_(f, i_, j_, r) == TRUE
Usual == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 40, 99, 100, 255, 256, 260, 1000, 4100, 32767, -1, -4, -128, -252, -32768>>
AsRust(q, ids) ==
  \A lib \in Libs :
    LET x == CBind(lib, q[1], q[2], q[3], ids) IN
    \A k \in 1 .. Size(ids) :
      (/\ Claim(<<lib, q[1], "value">>, Bits(x[k][1], x[k][2]) \/ AsFunction(q[1], x[k][1], q[2], q[3], LAMBDA a, b : CBind(lib, q[1], a, b, <<ids[k]>>)[1][2]), <<lib, q, ids[k], "answered", x[k][1], Outcome(x[k][1]), "Rust", x[k][2], Outcome(x[k][2])>>)
       /\ Claim(<<lib, q[1], "echo">>, EchoAs(q[1], ids[k], x[k][1], x[k][2]), <<lib, q, ids[k], "answered", x[k][1], "Rust", x[k][2]>>)
       /\ Claim(<<lib, q[1], "convention">>, x[k][3] = (IF lib = "stdcall32" THEN 20 ELSE 0), <<lib, q, ids[k], "took off the stack", x[k][3]>>))
A_(f, i_, j_, r) ==
  IF f[2] = "ids" THEN LET s == IdState(f[1], i_) IN AsRust(<<f[1], Exact(s[1]), Exact(s[2])>>, [k \in 1 .. Chunk |-> (Chunk * j_ + k) - 32769])
  ELSE IF f[2] = "wild" THEN LET q == PointA(f, i_, j_, D) IN AsRust(<<f[1], q[1], q[2]>>, <<0, 1, 3, 4, 5, 6, 15, 16, 17, 24, 36, -1>>)
  ELSE \A q \in Requests(f, Point(f, i_, j_, D), r) : AsRust(q, Usual)
=============================================================================
