-------------------------------- MODULE Num --------------------------------
(* Finite sums, dot products, maxima, and fixed-point arithmetic.  TLC      *)
(* integers are 32 bit; a fixed-point number x has scale 2^16 (FX) unless   *)
(* stated otherwise, and FMul splits its operands so that no intermediate   *)
(* product overflows while |x|,|y| < 2^26 and the result is < 2^31.         *)
EXTENDS Integers, Sequences, FiniteSets, Functions, FiniteSetsExt, SequencesExt, TLC

Sum(f)        == SumFunction(f)
Abs(a)        == IF a < 0 THEN -a ELSE a
Max2(a, b)    == IF a >= b THEN a ELSE b
Min2(a, b)    == IF a <= b THEN a ELSE b
Dot(a, b)     == SumFunction([i \in DOMAIN a |-> a[i] * b[i]])
VAdd(a, b)    == [i \in DOMAIN a |-> a[i] + b[i]]
VSub(a, b)    == [i \in DOMAIN a |-> a[i] - b[i]]
VScale(k, a)  == [i \in DOMAIN a |-> k * a[i]]
VZero(n)      == [i \in 1..n |-> 0]
Near(a, b, t) == Abs(a - b) <= t
VNear(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], t)
MaxOf(S)      == Max(S)
MaxAbs(v)     == IF Len(v) = 0 THEN 0 ELSE Max({Abs(v[i]) : i \in DOMAIN v})
\* sum of a sequence of equally long vectors (z is the zero vector)
VSum(seq, z)  == FoldLeft(LAMBDA acc, v : VAdd(acc, v), z, seq)
Flatten2(M)   == FlattenSeq(M)

FX == 65536
FH == 256
\* product of two FX-scaled numbers, FX-scaled, error < 3 units
FMul(a, b) == LET s  == IF (a < 0) = (b < 0) THEN 1 ELSE -1
                  aa == Abs(a)
                  bb == Abs(b)
                  ah == aa \div FH
                  al == aa % FH
                  bh == bb \div FH
                  bl == bb % FH
              IN s * (ah * bh + (ah * bl) \div FH + (al * bh) \div FH + (al * bl) \div FX)
FDot(a, b)  == SumFunction([i \in DOMAIN a |-> FMul(a[i], b[i])])
FNorm2(a)   == FDot(a, a)

B2N(b) == IF b THEN 1 ELSE 0
\* all sequences choosing an element of each set of the sequence dom
Labelings(dom) == FoldLeft(LAMBDA acc, D : {Append(y, s) : y \in acc, s \in D}, {<<>>}, dom)
=============================================================================
