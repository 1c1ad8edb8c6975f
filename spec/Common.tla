------------------------------ MODULE Common ------------------------------
(***************************************************************************)
(* Arithmetic, bit and grid vocabulary shared by every module.             *)
(*                                                                         *)
(* Numbers recorded from the implementation are integers: a float v is     *)
(* recorded as Round(v * S) for the scale S the record names, clamped to   *)
(* +-1000000000, with two sentinels for values that are not numbers.       *)
(* Expected values are computed exactly, as rationals <<n, d>>, d > 0.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NAN == 2000000001        \* recorded for not-a-number
INF == 2000000002        \* recorded for +infinity
NINF == 2000000003       \* recorded for -infinity
LIMIT == 1000000000      \* magnitudes above this are clamped

IsNum(x) == x >= -LIMIT /\ x <= LIMIT

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

(* ---- exact rationals ---- *)
Q(n, d) == LET g == Gcd(Abs(n), Abs(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
QI(n) == <<n, 1>>
QAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == LET g1 == IF a[1] = 0 THEN 1 ELSE Gcd(Abs(a[1]), b[2])
                  g2 == IF b[1] = 0 THEN 1 ELSE Gcd(Abs(b[1]), a[2])
              IN Q((a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1))
QInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
QLess(a, b) == a[1] * b[2] < b[1] * a[2]
QLeq(a, b) == a[1] * b[2] <= b[1] * a[2]
QFloor(a) == a[1] \div a[2]
(* round half to even, as numpy.rint *)
QRint(a) == LET f == a[1] \div a[2]
                twice == 2 * (a[1] - f * a[2])
            IN IF twice < a[2] THEN f
               ELSE IF twice > a[2] THEN f + 1
               ELSE IF f % 2 = 0 THEN f ELSE f + 1

(* q * S rounded down, digit by digit so as not to overflow *)
RECURSIVE Frac(_, _, _)
Frac(r, d, S) ==
  IF S = 1 THEN 0
  ELSE IF S % 10 = 0 /\ d > 200000
       THEN LET x == r * 10 IN (x \div d) * (S \div 10) + Frac(x % d, d, S \div 10)
       ELSE (r * S) \div d
Scaled(q, S) == (q[1] \div q[2]) * S + Frac(q[1] % q[2], q[2], S)
(* the recorded integer x is q at scale S, up to tol units *)
Near(x, q, S, tol) == IsNum(x) /\ Abs(x - Scaled(q, S)) <= tol

RECURSIVE SumSeqQ(_)
SumSeqQ(s) == IF s = << >> THEN QI(0) ELSE QAdd(Head(s), SumSeqQ(Tail(s)))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* ---- bits ---- *)
RECURSIVE OrBits(_, _)
OrBits(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
                ELSE IF a = -1 \/ b = -1 THEN -1     \* two's complement
                ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0)
                     + 2 * OrBits(a \div 2, b \div 2)
RECURSIVE AndBits(_, _)
AndBits(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = -1 THEN b ELSE IF b = -1 THEN a
                 ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0)
                      + 2 * AndBits(a \div 2, b \div 2)
MinusBits(a, b) == a - AndBits(a, b)
HasBit(a, p) == (a \div Pow(2, p)) % 2 = 1
(* the set of bit positions of a (0..30) *)
BitSet(a) == {p \in 0..30 : (a \div (IF p = 30 THEN 1073741824 ELSE Pow(2, p))) % 2 = 1}
RECURSIVE OrSeq(_)
OrSeq(s) == IF s = << >> THEN 0 ELSE OrBits(Head(s), OrSeq(Tail(s)))

(* ---- sequences, sets ---- *)
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
RECURSIVE FlattenSeq_(_)
FlattenSeq_(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o FlattenSeq_(Tail(ss))
RangeOf(s) == {s[i] : i \in DOMAIN s}
Positive(s) == SelectSeq(s, LAMBDA x : x > 0)
MaxSet(S) == CHOOSE m \in S : \A x \in S : x <= m
MinSet(S) == CHOOSE m \in S : \A x \in S : m <= x
RECURSIVE SortInts(_)
SortInts(s) ==
  IF s = << >> THEN << >>
  ELSE LET m == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j]
       IN <<s[m]>> \o SortInts([i \in 1..(Len(s) - 1) |-> IF i < m THEN s[i] ELSE s[i + 1]])
(* the k-th smallest element, by counting *)
KthSmallest(s, k) ==
  CHOOSE v \in RangeOf(s) :
     /\ Cardinality({i \in DOMAIN s : s[i] < v}) < k
     /\ Cardinality({i \in DOMAIN s : s[i] <= v}) >= k
(* twice the median of a sequence of integers, exactly *)
Median2(s) == LET n == Len(s)
              IN IF n % 2 = 1 THEN 2 * KthSmallest(s, (n + 1) \div 2)
                 ELSE KthSmallest(s, n \div 2) + KthSmallest(s, n \div 2 + 1)
MedianQ(s) == Q(Median2(s), 2)

(* grids are sequences of rows; Cell uses zero-based pixel indices *)
Cell(g, r, c) == g[r + 1][c + 1]
NRow(g) == Len(g)
NCol(g) == IF Len(g) = 0 THEN 0 ELSE Len(g[1])
Flat(g) == FlattenSeq_(g)

(* ---- verdicts ---- *)
(* the clause name when the clause fails *)
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
