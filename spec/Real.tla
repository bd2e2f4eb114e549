-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Real arithmetic for the IF97 specification.                             *)
(*                                                                         *)
(* A numeral is an integer or a string holding a decimal numeral (TLC has  *)
(* no decimal tokens).  TLC evaluates these operators in Java              *)
(* (engine/src/vf/RealOps.java): each value is a double carrying a bound   *)
(* Err on the rounding error that evaluating the same formula in double    *)
(* arithmetic, in any reasonable order, may accumulate.  The bound is what *)
(* lets conformance demand agreement down to rounding noise without ever   *)
(* depending on how the implementation orders its operations.              *)
(***************************************************************************)
a + b == CHOOSE x : TRUE      \* the usual operations on the reals ...
a - b == CHOOSE x : TRUE
-. a  == CHOOSE x : TRUE
a * b == CHOOSE x : TRUE
a / b == CHOOSE x : TRUE
a ^ b == CHOOSE x : TRUE
a < b == CHOOSE x : TRUE
a > b == CHOOSE x : TRUE
a \leq b == CHOOSE x : TRUE
a \geq b == CHOOSE x : TRUE
Eq(a, b) == a = b            \* the same number
a .. b == CHOOSE x : TRUE     \* the integers between a and b
a % b == CHOOSE x : TRUE      \* remainder, integers
Exp(x) == CHOOSE y : TRUE
Ln(x) == CHOOSE y : TRUE
Sqrt(x) == x ^ "0.5"
Abs(x) == IF x < 0 THEN -x ELSE x

Inf == CHOOSE y : TRUE        \* +infinity and not-a-number: only ever arguments
NaN == CHOOSE y : TRUE        \* submitted to, or answers given by, the library
IsNum(x) == CHOOSE y : TRUE   \* x is a finite number

Exact(x) == x                 \* the same number with Err = 0
Widen(x, d) == x              \* the same number with Err enlarged by |d|
Err(x) == 0                   \* the rounding bound carried by x
Ulps(x, k) == x               \* the double k representable steps above x
Size(s) == CHOOSE n : TRUE    \* length of a tuple
Div(a, b) == CHOOSE n : TRUE   \* integer quotient
ToInt(x) == CHOOSE n : TRUE   \* nearest integer
Scale(quick, deep) == quick   \* a bound, by the tier the check runs at
LitN(q) == CHOOSE n : TRUE    \* the implementation's own numeric literals that may be
Lit(q, k) == CHOOSE x : TRUE  \* values of quantity q (a dictionary of interesting inputs)
Str(x) == CHOOSE s : TRUE     \* printable form
Rnd(k, i, j) == CHOOSE x : TRUE \* seed-dependent number in [0,1)

(* sum over the rows <<I, J, n>> of tab of n x^I y^J *)
RECURSIVE PolyFrom(_,_,_,_,_)
PolyFrom(tab, x, y, k, len) ==
    IF k > len THEN 0
    ELSE tab[k][3] * x ^ tab[k][1] * y ^ tab[k][2] + PolyFrom(tab, x, y, k + 1, len)
Poly(tab, x, y) == CHOOSE s : TRUE   \* = PolyFrom(tab, x, y, 1, Len(tab)), checked in SpecTables
(* <<f, f_x, f_y, f_xx, f_xy, f_yy>> of the same sum *)
PolyD(tab, x, y) == CHOOSE s : TRUE

Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
(* agreement within rounding noise; clearly different orders *)
K64 == 64
Tol(a, b) == K64 * (Err(a) + Err(b))
Same(a, b) == Abs(a - b) \leq Tol(a, b)
Below(a, b) == a < b /\ ~Same(a, b)
(* a < b and a <= b with b shifted by k units of noise *)
Lt(a, b, k) == a < b + k * Tol(a, b)
Le(a, b, k) == ~(a > b + k * Tol(a, b))
Fuzzy(x, d) == Widen(x, d / 64)          \* a number fixed to +- d only
=============================================================================
