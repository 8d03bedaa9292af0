-------------------------------- MODULE BEDecl --------------------------------
(* Declaring an attribute from a line of text:

       name|type|allow_undefined[|min[|max]]

   type is integer, float, boolean, frequency, segments, string, integer enum,
   integer list or string list. For the string and enum types the first number is the
   count of distinct values; an integer list is bounded only when both ends are given;
   the other missing ends are open. One line break may end the line.                  *)
EXTENDS BENum, FiniteSets

BAR == 124
NL == 10
MINUS == 45
DOT == 46

\* open ends of a fractional range
FltLow  == <<-2000000000, 0, 0, 0, 0>>
FltHigh == <<2000000000, 0, 0, 0, 0>>

RECURSIVE SplitAt(_, _, _)
SplitAt(s, i, cur) ==
    IF i > Len(s) THEN <<cur>>
    ELSE IF s[i] = BAR THEN <<cur>> \o SplitAt(s, i + 1, <<>>)
    ELSE SplitAt(s, i + 1, Append(cur, s[i]))

Fields(line) ==
    LET n == Len(line)
        s == IF n > 0 /\ line[n] = NL THEN SubSeq(line, 1, n - 1) ELSE line
    IN  SplitAt(s, 1, <<>>)

Signed(ds, f(_)) == IF Len(ds) > 0 /\ ds[1] = MINUS THEN NumNeg(f(SubSeq(ds, 2, Len(ds)))) ELSE f(ds)

IntText(ds) == Signed(ds, IntOfDigits)

DotAt(ds) == LET P == {i \in 1..Len(ds) : ds[i] = DOT} IN
             IF P = {} THEN Len(ds) + 1 ELSE CHOOSE i \in P : \A j \in P : i <= j
FltText(ds) == Signed(ds, LAMBDA u : FloatOfDigits(SubSeq(u, 1, DotAt(u) - 1), SubSeq(u, DotAt(u) + 1, Len(u))))

\* the words of the format, as bytes
DTrue    == <<116, 114, 117, 101>>
WTypes == [i   |-> <<105, 110, 116, 101, 103, 101, 114>>,
           f   |-> <<102, 108, 111, 97, 116>>,
           b   |-> <<98, 111, 111, 108, 101, 97, 110>>,
           fc  |-> <<102, 114, 101, 113, 117, 101, 110, 99, 121>>,
           seg |-> <<115, 101, 103, 109, 101, 110, 116, 115>>,
           s   |-> <<115, 116, 114, 105, 110, 103>>,
           ie  |-> <<105, 110, 116, 101, 103, 101, 114, 32, 101, 110, 117, 109>>,
           il  |-> <<105, 110, 116, 101, 103, 101, 114, 32, 108, 105, 115, 116>>,
           sl  |-> <<115, 116, 114, 105, 110, 103, 32, 108, 105, 115, 116>>]

WellFormed(line) ==
    LET w == Fields(line) IN
    /\ Len(w) \in 3..5
    /\ \A j \in 1..Len(w) : Len(w[j]) > 0
    /\ \E ty \in DOMAIN WTypes : WTypes[ty] = w[2]

\* small count: at most six digits matter here
CountOf(n) == n[4] + n[3] * Base

\* the attribute a line declares
Declared(line) ==
    LET w   == Fields(line)
        ty  == CHOOSE t \in DOMAIN WTypes : WTypes[t] = w[2]
        und == w[3] = DTrue
        two == Len(w) = 5
        one == Len(w) >= 4
        rec(unb, lo, hi, cap) == [nm |-> w[1], ty |-> ty, und |-> und, unb |-> unb, lo |-> lo, hi |-> hi, cap |-> cap]
    IN  CASE ty = "i"  -> LET lo == IF one THEN IntText(w[4]) ELSE I64Min
                              hi == IF two THEN IntText(w[5]) ELSE I64Max
                          IN  rec(lo = I64Min \/ hi = I64Max, lo, hi, 0)
          [] ty = "il" -> IF two THEN LET lo == IntText(w[4]) hi == IntText(w[5]) IN rec(lo = I64Min \/ hi = I64Max, lo, hi, 0)
                          ELSE rec(TRUE, I64Min, I64Max, 0)
          [] ty = "f"  -> LET lo == IF one THEN FltText(w[4]) ELSE FltLow
                              hi == IF two THEN FltText(w[5]) ELSE FltHigh
                          IN  rec(~two, lo, hi, 0)
          [] ty \in {"s", "sl", "ie"} -> IF one THEN rec(FALSE, NumZero, NumZero, CountOf(IntText(w[4])))
                                         ELSE rec(TRUE, NumZero, NumZero, 0)
          [] OTHER -> rec(TRUE, NumZero, NumZero, 0)
===============================================================================
