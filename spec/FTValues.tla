------------------------------ MODULE FTValues ------------------------------
(***************************************************************************)
(* The value domain of a feature matrix and exact arithmetic on it.        *)
(*                                                                         *)
(* A value is a triple <<tag, n, d>>:                                      *)
(*   <<0,0,1>>  missing (NaN, NaT, None)                                   *)
(*   <<1,n,d>>  the rational n/d, lowest terms, d>0 (booleans are 0 and 1) *)
(*   <<2,c,1>>  the string with code c (codes follow string order)         *)
(*   <<4,s,1>>  the instant s (seconds after the epoch of the scenario)    *)
(*   <<5,s,1>>  +infinity (s=1) or -infinity (s=-1)                        *)
(*   <<8,0,1>>  unknown: left the range in which this module computes;     *)
(*              absorbing, and never the reason for a verdict              *)
(*   <<9,k,1>>  a recorded value with no exact counterpart in the domain   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NaN == <<0, 0, 1>>
Unk == <<8, 0, 1>>
PosInf == <<5, 1, 1>>
NegInf == <<5, -1, 1>>
Num(k) == <<1, k, 1>>
TrueV == Num(1)
FalseV == Num(0)
BoolV(b) == IF b THEN TrueV ELSE FalseV
Time(s) == <<4, s, 1>>

IsNaN(v) == v[1] = 0
IsUnk(v) == v[1] = 8
IsNum(v) == v[1] = 1
IsTime(v) == v[1] = 4
IsInf(v) == v[1] = 5
IsTrue(v) == v = TrueV

Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

LIMIT == 2000000000
\* Can a*b be formed without leaving 32 bits?
MulOk(a, b) == \/ a = 0
               \/ b = 0
               \/ Abs(b) <= LIMIT \div Abs(a)
AddOk(a, b) == Abs(a) <= LIMIT \div 2 /\ Abs(b) <= LIMIT \div 2

\* n/d in lowest terms (d # 0)
Rat(n, d) ==
  LET g == Gcd(Abs(n), Abs(d))
      s == IF d < 0 THEN -1 ELSE 1
  IN <<1, s * (n \div g), s * (d \div g)>>
\* n \div g with negative n: g divides n exactly, so floor division is exact

RNeg(x) == IF IsNum(x) THEN <<1, -x[2], x[3]>>
           ELSE IF IsInf(x) THEN <<5, -x[2], 1>> ELSE x

RMul(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaN
  ELSE IF ~IsNum(x) \/ ~IsNum(y) THEN Unk
  ELSE LET g1 == Gcd(Abs(x[2]), y[3])
           g2 == Gcd(Abs(y[2]), x[3])
           h1 == IF g1 = 0 THEN 1 ELSE g1
           h2 == IF g2 = 0 THEN 1 ELSE g2
           n1 == x[2] \div h1
           n2 == y[2] \div h2
           d1 == x[3] \div h2
           d2 == y[3] \div h1
       IN IF MulOk(n1, n2) /\ MulOk(d1, d2) THEN Rat(n1 * n2, d1 * d2) ELSE Unk

RAdd(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaN
  ELSE IF ~IsNum(x) \/ ~IsNum(y) THEN Unk
  ELSE LET g == Gcd(x[3], y[3])
           a == y[3] \div g
           b == x[3] \div g
       IN IF MulOk(x[2], a) /\ MulOk(y[2], b) /\ MulOk(x[3], a)
          THEN IF AddOk(x[2] * a, y[2] * b)
               THEN Rat(x[2] * a + y[2] * b, x[3] * a) ELSE Unk
          ELSE Unk
RSub(x, y) == RAdd(x, RNeg(y))

\* true division as IEEE does it: x/0 is an infinity, 0/0 missing
RDiv(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaN
  ELSE IF ~IsNum(x) \/ ~IsNum(y) THEN Unk
  ELSE IF y[2] = 0
       THEN IF x[2] = 0 THEN NaN ELSE IF x[2] > 0 THEN PosInf ELSE NegInf
       ELSE RMul(x, IF y[2] > 0 THEN <<1, y[3], y[2]>> ELSE <<1, -y[3], -y[2]>>)
RDivInt(x, k) == RDiv(x, Num(k))

Floor(x) == x[2] \div x[3]            \* \div floors in TLA+
\* modulo with the sign of the divisor
RMod(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaN
  ELSE IF ~IsNum(x) \/ ~IsNum(y) THEN Unk
  ELSE IF y[2] = 0 THEN NaN
  ELSE LET q == RDiv(x, y)
       IN IF ~IsNum(q) THEN Unk ELSE RSub(x, RMul(y, Num(Floor(q))))

\* -1, 0, 1 for two comparable non-missing values, 2 when it cannot be decided
Cmp(x, y) ==
  IF IsUnk(x) \/ IsUnk(y) THEN 2
  ELSE IF IsInf(x) /\ IsInf(y) THEN (IF x[2] = y[2] THEN 0 ELSE IF x[2] < y[2] THEN -1 ELSE 1)
  ELSE IF IsInf(x) THEN x[2]
  ELSE IF IsInf(y) THEN -y[2]
  ELSE IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
  ELSE IF x[3] = y[3] THEN (IF x[2] = y[2] THEN 0 ELSE IF x[2] < y[2] THEN -1 ELSE 1)
  ELSE IF MulOk(x[2], y[3]) /\ MulOk(y[2], x[3])
       THEN LET a == x[2] * y[3]
                b == y[2] * x[3]
            IN IF a = b THEN 0 ELSE IF a < b THEN -1 ELSE 1
       ELSE 2
Less(x, y) == Cmp(x, y) = -1
Leq(x, y) == Cmp(x, y) \in {-1, 0}

\* Three-valued comparison used by comparison primitives: missing operands
\* make every comparison false except "not equal".
CmpV(x, y, sat) ==
  IF IsUnk(x) \/ IsUnk(y) THEN Unk
  ELSE IF IsNaN(x) \/ IsNaN(y) THEN FalseV
  ELSE LET c == Cmp(x, y) IN IF c = 2 THEN Unk ELSE BoolV(c \in sat)

NEV(x, y) ==
  IF IsUnk(x) \/ IsUnk(y) THEN Unk
  ELSE IF IsNaN(x) \/ IsNaN(y) THEN TrueV
  ELSE BoolV(x # y)

\* A recorded value r matches the specified value v.
DENOM == 50000            \* recorder keeps denominators up to 100000
Matches(v, r) ==
  \/ IsUnk(v)
  \/ v = r
  \/ IsInf(v) /\ IsInf(r)      \* the sign of an infinity depends on the sign of a zero
  \/ IsNum(v) /\ v[3] > DENOM /\ r[1] \in {1, 9}

-----------------------------------------------------------------------------
(* Sequences of values                                                     *)
NotNull(s) == SelectSeq(s, LAMBDA v : ~IsNaN(v))
HasUnk(s) == \E i \in 1..Len(s) : IsUnk(s[i])

RECURSIVE SumFrom(_, _, _)
SumFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE SumFrom(s, i + 1, RAdd(acc, s[i]))
SumSeq(s) == SumFrom(s, 1, Num(0))

RECURSIVE InsertV(_, _)
InsertV(s, v) ==
  IF s = <<>> THEN <<v>>
  ELSE IF Leq(Head(s), v) THEN <<Head(s)>> \o InsertV(Tail(s), v)
  ELSE <<v>> \o s
RECURSIVE SortV(_)
SortV(s) == IF s = <<>> THEN <<>> ELSE InsertV(SortV(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

Range(s) == {s[i] : i \in 1..Len(s)}
CountOf(s, v) == Len(SelectSeq(s, LAMBDA w : w = v))
MinOf(s) == IF \E v \in Range(s) : \A w \in Range(s) : Leq(v, w)
            THEN CHOOSE v \in Range(s) : \A w \in Range(s) : Leq(v, w) ELSE Unk
MaxOf(s) == IF \E v \in Range(s) : \A w \in Range(s) : Leq(w, v)
            THEN CHOOSE v \in Range(s) : \A w \in Range(s) : Leq(w, v) ELSE Unk
=============================================================================
