-------------------------------- MODULE BENum --------------------------------
(* 64-bit integers and decimal fractions for TLC, whose own integers have 32 bits.

   A number is a 5-tuple of decimal limbs <<w4, w3, w2, w1, f>> in base 10^6:
       value = w4*10^18 + w3*10^12 + w2*10^6 + w1 + f*10^-6
   kept in floor normal form: the four low limbs are in 0..999999 and the top
   limb is any integer. Numbers in this form compare lexicographically.        *)
EXTENDS Integers, Sequences

Base == 1000000

NumZero == <<0, 0, 0, 0, 0>>
NumOne  == <<0, 0, 0, 1, 0>>
I64Max  == <<9, 223372, 36854, 775807, 0>>
I64Min  == <<-10, 776627, 963145, 224192, 0>>

\* Small TLC integer -> number
NumOf(n) == IF n >= 0 THEN <<0, 0, n \div Base, n % Base, 0>>
            ELSE LET q == (-n) \div Base
                     r == (-n) % Base
                 IN  IF r = 0 THEN IF q = 0 THEN NumZero ELSE <<-1, 999999, Base - q, 0, 0>>
                     ELSE <<-1, 999999, Base - 1 - q, Base - r, 0>>

NumLT(a, b) ==
    IF a[1] # b[1] THEN a[1] < b[1] ELSE
    IF a[2] # b[2] THEN a[2] < b[2] ELSE
    IF a[3] # b[3] THEN a[3] < b[3] ELSE
    IF a[4] # b[4] THEN a[4] < b[4] ELSE a[5] < b[5]
NumLE(a, b) == ~NumLT(b, a)
NumMin(a, b) == IF NumLT(b, a) THEN b ELSE a
NumMax(a, b) == IF NumLT(a, b) THEN b ELSE a

\* Carries arbitrary limb values (|limb| < 2^31 - 2^21) into normal form
NumNorm(s) ==
    LET f  == s[5] % Base          c5 == s[5] \div Base
        a4 == s[4] + c5            w1 == a4 % Base
        a3 == s[3] + a4 \div Base  w2 == a3 % Base
        a2 == s[2] + a3 \div Base  w3 == a2 % Base
    IN  <<s[1] + a2 \div Base, w3, w2, w1, f>>

NumAdd(a, b) == NumNorm([i \in 1..5 |-> a[i] + b[i]])
NumNeg(a)    == NumNorm([i \in 1..5 |-> -a[i]])
NumSub(a, b) == NumNorm([i \in 1..5 |-> a[i] - b[i]])

\* C division of an integer by one million: truncation towards zero
NumDivMillion(a) ==
    IF a[1] >= 0 THEN <<0, a[1], a[2], a[3], 0>>
    ELSE LET p == NumNeg(a) IN NumNeg(<<0, p[1], p[2], p[3], 0>>)

\* Floor of half the integer a (used by the reference splitting rule)
NumHalf(a) ==
    LET h1 == a[1] \div 2     r1 == a[1] % 2
        x2 == a[2] + r1*Base  h2 == x2 \div 2   r2 == x2 % 2
        x3 == a[3] + r2*Base  h3 == x3 \div 2   r3 == x3 % 2
        x4 == a[4] + r3*Base  h4 == x4 \div 2
    IN  <<h1, h2, h3, h4, 0>>

\* Digits (ASCII codes) -> limbs. int: at most 24 digits count, more saturate.
RECURSIVE DigitsVal(_, _, _)
DigitsVal(ds, i, j) == IF j < i THEN 0 ELSE DigitsVal(ds, i, j - 1) * 10 + (ds[j] - 48)

RECURSIVE StripZeros(_)
StripZeros(ds) == IF Len(ds) > 0 /\ ds[1] = 48 THEN StripZeros(SubSeq(ds, 2, Len(ds))) ELSE ds

\* strtoll on a digit string: saturates at INT64_MAX
IntOfDigits(ds0) ==
    LET ds == StripZeros(ds0)
        n  == Len(ds)
        chunk(k) == DigitsVal(ds, IF n - 6*k + 1 < 1 THEN 1 ELSE n - 6*k + 1, n - 6*(k-1))
        v  == <<chunk(4), chunk(3), chunk(2), chunk(1), 0>>
    IN  IF n > 24 THEN I64Max ELSE IF NumLT(I64Max, v) THEN I64Max ELSE v

\* decimal literal: integer digits and at most 6 significant fraction digits
FloatOfDigits(ip, fp0) ==
    LET fp == IF Len(fp0) > 6 THEN SubSeq(fp0, 1, 6)
              ELSE fp0 \o [i \in 1..(6 - Len(fp0)) |-> 48]
        v  == IntOfDigits(ip)
    IN  <<v[1], v[2], v[3], v[4], DigitsVal(fp, 1, 6)>>

\* uint32 truncation of a non-negative integer below 2^53 (used for constants)
TwoTo32 == <<0, 0, 4294, 967296, 0>>

\* ASCII rendering of an integer number (for generated scenarios)
RECURSIVE SmallDigits(_)
SmallDigits(n) == IF n < 10 THEN <<48 + n>> ELSE SmallDigits(n \div 10) \o <<48 + (n % 10)>>
=============================================================================
