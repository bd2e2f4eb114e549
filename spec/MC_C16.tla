------------------------------- MODULE MC_C16 -------------------------------
(* C16: the Python package: every request through the functions of the extension module, and through the helpers, held *)
(* against the Rust function.                                                                                            *)
EXTENDS Checks
D == Scale(8, 40)
S_ == PTs({"r1", "r2", "r3", "r3c", "r5", "sat", "b23", "corner", "out"}) \union Wets({"wet", "wethi", "wettop"})
      \union Directs(Pairs, {"wild"}) \union Directs(Pairs \ {"pt"}, {"box", "out"})
R_(f) == RowsA(f, D)
C_(f) == ColsA(f, D)
W_(f, i_, j_) == IF f[1] = "pt" /\ f[2] # "wild" THEN WhereIs(f, PointA(f, i_, j_, D)) ELSE 0
P_(f, i_, j_, r) == TRUE
Usual == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 99, 260, 2147483647, -1, -4, -252, -2147483647>>
\* the helpers the package's documentation lists: pair2property
Helpers(pair) ==
  CASE pair = "pt" -> <<<<"pt2h", OH>>, <<"pt2s", OS>>, <<"pt2v", OV>>, <<"pt2x", OX>>>>
    [] pair = "ph" -> <<<<"ph2t", OT>>, <<"ph2s", OS>>, <<"ph2v", OV>>, <<"ph2x", OX>>>>
    [] pair = "ps" -> <<<<"ps2t", OT>>, <<"ps2h", OH>>, <<"ps2v", OV>>, <<"ps2x", OX>>>>
    [] pair = "pv" -> <<<<"pv2t", OT>>, <<"pv2h", OH>>, <<"pv2s", OS>>, <<"pv2x", OX>>>>
    [] pair = "hs" -> <<<<"hs2t", OT>>, <<"hs2p", OP>>, <<"hs2v", OV>>, <<"hs2x", OX>>>>
    [] pair = "th" -> <<<<"th2p", OP>>, <<"th2s", OS>>, <<"th2v", OV>>, <<"th2x", OX>>>>
    [] pair = "ts" -> <<<<"ts2p", OP>>, <<"ts2h", OH>>, <<"ts2v", OV>>, <<"ts2x", OX>>>>
    [] pair = "tv" -> <<<<"tv2p", OP>>, <<"tv2h", OH>>, <<"tv2s", OS>>, <<"tv2x", OX>>>>
    [] pair = "px" -> <<<<"px2t", OT>>, <<"px2h", OH>>, <<"px2s", OS>>, <<"px2v", OV>>>>
    [] pair = "tx" -> <<<<"tx2p", OP>>, <<"tx2h", OH>>, <<"tx2s", OS>>, <<"tx2v", OV>>>>
    [] pair = "hx" -> <<<<"hx2p", OP>>, <<"hx2t", OT>>, <<"hx2s", OS>>, <<"hx2v", OV>>>>
    [] pair = "sx" -> <<<<"sx2p", OP>>, <<"sx2t", OT>>, <<"sx2h", OH>>, <<"sx2v", OV>>>>
AsRust(q, ids) ==
  LET x == PyCall(q[1], q[2], q[3], ids)
      H == Helpers(q[1])
  IN  /\ \A k \in 1 .. Size(ids) :
           LET c == Ask(q[1], q[2], q[3], ids[k]) IN
           /\ Claim(<<q[1], "echo">>, EchoAs(q[1], ids[k], x[k], c), <<q, ids[k], "answered", x[k], "Rust", c>>)
           /\ Claim(<<q[1], "value">>, Bits(x[k], c) \/ AsFunction(q[1], x[k], q[2], q[3], LAMBDA a, b : Ask(q[1], a, b, ids[k])), <<q, ids[k], "answered", x[k], Outcome(x[k]), "Rust", c, Outcome(c)>>)
      /\ \A n \in 1 .. Size(H) :
           LET c == Ask(q[1], q[2], q[3], H[n][2])
               y == PyCall(H[n][1], q[2], q[3], <<>>)[1]
           IN  Claim(<<H[n][1]>>, Bits(y, c) \/ AsFunction(q[1], y, q[2], q[3], LAMBDA a, b : Ask(q[1], a, b, H[n][2])), <<H[n][1], q[2], q[3], "answered", y, Outcome(y), "Rust", c, Outcome(c)>>)
A_(f, i_, j_, r) ==
  IF f[2] = "wild" THEN LET q == PointA(f, i_, j_, D) IN AsRust(<<f[1], q[1], q[2]>>, <<0, 1, 3, 4, 5, 6, 15, 16, 17, 24, 36, -1>>)
  ELSE \A q \in Requests(f, Point(f, i_, j_, D), r) : AsRust(q, Usual)
=============================================================================
