--------------------------------- MODULE Fix ---------------------------------
(***************************************************************************)
(* Fixed-point arithmetic for the specifications of the numeric parts.     *)
(*                                                                         *)
(* A number x is represented by the integer round(x * S).  MulDiv and      *)
(* MulSqrt are ordinary TLA+ definitions; java/Fix.java only evaluates     *)
(* them with 64-bit intermediates because TLC's integers have 32 bits.     *)
(* Everything else (square roots, trigonometry, exponential, logarithm,    *)
(* vectors and matrices) is plain TLA+ on top of them.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT S          \* scale, e.g. 1000000

Lim == 1000000000     \* so that sums and differences of two numbers stay within TLC's integers
Sat(x) == IF x > Lim THEN Lim ELSE IF x < -Lim THEN -Lim ELSE x

\* round(a * b / c), halves up, saturating; c # 0
MulDiv(a, b, c) ==
    LET n == IF c > 0 THEN a * b ELSE -(a * b)
        d == IF c > 0 THEN c ELSE -c
    IN  Sat((2 * n + d) \div (2 * d))

\* floor(sqrt(a * b)) for a * b >= 0, else 0
MulSqrt(a, b) ==
    IF a * b <= 0 THEN 0
    ELSE CHOOSE r \in 0..Lim : r * r <= a * b /\ (r + 1) * (r + 1) > a * b

\* Sum over a sequence of integers, saturating at every step
SeqSum(q) ==
    LET RECURSIVE go(_, _)
        go(i, acc) == IF i > Len(q) THEN acc ELSE go(i + 1, Sat(acc + q[i]))
    IN  go(1, 0)

\* sum_i a[i]*b[i] / c, rounded once, saturating
DotDiv(a, b, c) ==
    LET RECURSIVE go(_, _)
        go(i, acc) == IF i > Len(a) THEN acc ELSE go(i + 1, acc + a[i] * b[i])
        n == go(1, 0)
    IN  Sat((2 * n + c) \div (2 * c))

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

Mul(a, b) == MulDiv(a, b, S)
Div(a, b) == MulDiv(a, S, b)
Sq(a) == MulDiv(a, a, S)
Sqrt(a) == MulSqrt(a, S)
FromInt(n) == n * S
Half == S \div 2

Close(a, b, tol) == a - b <= tol /\ b - a <= tol
\* |a-b| <= tol + |b| * rel / S
CloseRel(a, b, tol, rel) == Close(a, b, tol + MulDiv(Abs(b), rel, S))

(************************** elementary functions ****************************)
PI == MulDiv(314159265, S, 100000000)
TwoPI == MulDiv(628318531, S, 100000000)
HalfPI == MulDiv(157079633, S, 100000000)

\* x reduced to (-PI, PI]
Wrap(x) == LET r == x % TwoPI IN IF r > PI THEN r - TwoPI ELSE r

SinSmall(x) ==      \* |x| <= PI/2
    LET q == Sq(x)
        a7 == S - q \div 156
        a5 == S - MulDiv(MulDiv(q, a7, S), 1, 110)
        a4 == S - MulDiv(MulDiv(q, a5, S), 1, 72)
        a3 == S - MulDiv(MulDiv(q, a4, S), 1, 42)
        a2 == S - MulDiv(MulDiv(q, a3, S), 1, 20)
        a1 == S - MulDiv(MulDiv(q, a2, S), 1, 6)
    IN  Mul(x, a1)

Sin(x) ==
    LET w == Wrap(x)
    IN  IF w > HalfPI THEN SinSmall(PI - w)
        ELSE IF w < -HalfPI THEN SinSmall(-PI - w)
        ELSE SinSmall(w)
Cos(x) == Sin(HalfPI - Abs(Wrap(x)))

AtanUnit(t) ==      \* |t| <= tan(PI/8)
    LET q == Sq(t)
        b6 == S \div 13
        b5 == S \div 11 - Mul(q, b6)
        b4 == S \div 9 - Mul(q, b5)
        b3 == S \div 7 - Mul(q, b4)
        b2 == S \div 5 - Mul(q, b3)
        b1 == S \div 3 - Mul(q, b2)
    IN  Mul(t, S - Mul(q, b1))
\* arctan(n/d) for 0 <= n <= d, d > 0
AtanFrac(n, d) ==
    IF MulDiv(n, 1000, d) > 414
    THEN PI \div 4 + AtanUnit(Div(n - d, n + d))
    ELSE AtanUnit(Div(n, d))
Atan2(y, x) ==
    IF x = 0 /\ y = 0 THEN 0
    ELSE LET a == Abs(y)
             b == Abs(x)
             first == IF a <= b THEN AtanFrac(a, b) ELSE HalfPI - AtanFrac(b, a)
             second == IF x < 0 THEN PI - first ELSE first
         IN  IF y < 0 THEN -second ELSE second
Acos(c) == Atan2(MulSqrt(Max2(S - c, 0), S + c), c)
Asin(c) == HalfPI - Acos(c)

Exp(x) ==           \* |x| small enough that the result fits
    LET h == MulDiv(x, 1, 32)
        e1 == S + h + MulDiv(h, h, 2 * S) + MulDiv(Mul(h, h), h, 6 * S)
              + MulDiv(Mul(h, h), Mul(h, h), 24 * S)
              + MulDiv(Mul(Mul(h, h), Mul(h, h)), h, 120 * S)
        e2 == Mul(e1, e1)
        e4 == Mul(e2, e2)
        e8 == Mul(e4, e4)
        e16 == Mul(e8, e8)
    IN  Mul(e16, e16)

Ln2 == MulDiv(69314718, S, 100000000)
Ln(x) ==            \* x > 0
    LET RECURSIVE norm(_, _)
        norm(m, k) == IF m > MulDiv(S, 3, 2) THEN norm(m \div 2, k + 1)
                      ELSE IF m < MulDiv(S, 3, 4) THEN norm(m * 2, k - 1)
                      ELSE <<m, k>>
        p == norm(x, 0)
        t == Div(p[1] - S, p[1] + S)
        q == Sq(t)
        c4 == S \div 7 + MulDiv(q, 1, 9)
        c3 == S \div 5 + Mul(q, c4)
        c2 == S \div 3 + Mul(q, c3)
    IN  2 * Mul(t, S + Mul(q, c2)) + p[2] * Ln2

(*************************** vectors and matrices ***************************)
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VNeg(a) == [i \in 1..Len(a) |-> -a[i]]
VScale(k, a) == [i \in 1..Len(a) |-> Mul(k, a[i])]
Dot(a, b) == DotDiv(a, b, S)
Norm(a) == LET m == LET RECURSIVE mx(_, _)
                        mx(i, acc) == IF i > Len(a) THEN acc ELSE mx(i + 1, Max2(acc, Abs(a[i])))
                    IN  mx(1, 0)
           IN  IF m = 0 THEN 0
               ELSE LET n == [i \in 1..Len(a) |-> Div(a[i], m)]
                    IN  Mul(m, Sqrt(Dot(n, n)))
Unit(a) == LET n == Norm(a) IN IF n = 0 THEN a ELSE [i \in 1..Len(a) |-> Div(a[i], n)]
Cross(a, b) == << DotDiv(<<a[2], -a[3]>>, <<b[3], b[2]>>, S),
                  DotDiv(<<a[3], -a[1]>>, <<b[1], b[3]>>, S),
                  DotDiv(<<a[1], -a[2]>>, <<b[2], b[1]>>, S) >>
MatVec(m, v) == [i \in 1..Len(m) |-> Dot(m[i], v)]
Col(m, j) == [k \in 1..Len(m) |-> m[k][j]]
MatMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> Dot(a[i], Col(b, j))]]
Transpose(m) == [i \in 1..Len(m[1]) |-> [j \in 1..Len(m) |-> m[j][i]]]
VClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)
MClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], tol)
First3(v) == <<v[1], v[2], v[3]>>
=============================================================================
