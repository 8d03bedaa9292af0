------------------------------- MODULE BELearnMC -------------------------------
(* Learning as a transition system: the ranges of one attribute while expressions are
   learned in any order. Checked exhaustively over a small universe.

   BL_TY  type of the attribute: i, f, il, s or sl
   BL_N   number of expressions learned                                               *)
EXTENDS BELearn, IOUtils, TLC

Ty == IOEnv.BL_TY
N == atoi(IOEnv.BL_N)

Num(n) == NumOf(n)
Letter(c) == <<96 + c>>
Val(c) == IF Ty \in {"s", "sl"} THEN Letter(c) ELSE Num(c)
Consts == {1, 2, 4}
\* values an event may supply: more than the constants on either side
Outer == -2..7

Dcl(lo, hi, unb, cap) == [nm |-> <<118>>, ty |-> Ty, und |-> TRUE, unb |-> unb, lo |-> lo, hi |-> hi, cap |-> cap]
Open == <<OpenLow(Ty), OpenHigh(Ty)>>
Decls == IF Ty \in {"s", "sl"} THEN {Dcl(NumZero, NumZero, TRUE, 0), Dcl(NumZero, NumZero, FALSE, 1), Dcl(NumZero, NumZero, FALSE, 9)}
         ELSE {Dcl(Open[1], Open[2], TRUE, 0), Dcl(Num(1), Num(3), FALSE, 0), Dcl(Num(2), Num(2), FALSE, 0),
               Dcl(Num(2), Open[2], TRUE, 0), Dcl(Open[1], Num(2), TRUE, 0)}

Kd == IF Ty \in {"s", "sl"} THEN "str" ELSE IF Ty = "f" THEN "flt" ELSE "int"
Pairs == {{Val(a), Val(b)} : a, b \in Consts}
Single == IF Ty \in {"i", "f"}
          THEN {[op |-> "cmp", v |-> 1, c |-> c, k |-> Kd, x |-> Val(x)] : c \in {"<", "<=", ">", ">="}, x \in Consts} ELSE {}
Equals == IF Ty \in {"i", "f", "s"} THEN {[op |-> "eq", v |-> 1, neg |-> g, k |-> Kd, x |-> Val(x)] : g \in BOOLEAN, x \in Consts} ELSE {}
Among  == IF Ty \in {"i", "s"} THEN {[op |-> "vin", v |-> 1, neg |-> g, k |-> Kd, xs |-> P] : g \in BOOLEAN, P \in Pairs} ELSE {}
Lists  == IF Ty \in {"il", "sl"}
          THEN {[op |-> "list", v |-> 1, c |-> c, k |-> Kd, xs |-> P] : c \in {"one", "none", "all"}, P \in Pairs}
               \cup {[op |-> "cin", v |-> 1, neg |-> g, k |-> Kd, x |-> Val(x)] : g \in BOOLEAN, x \in Consts}
          ELSE {}
Leaf == Single \cup Equals \cup Among \cup Lists \cup {[op |-> "null", v |-> 1, c |-> "null"]}
Not(a) == [op |-> "not", a |-> a]
And(a, b) == [op |-> "and", a |-> a, b |-> b]
Or(a, b) == [op |-> "or", a |-> a, b |-> b]
Exprs == Leaf \cup {Not(a) : a \in Leaf} \cup {Not(Or(a, Not(b))) : a, b \in {x \in Leaf : x.op \in {"cmp", "cin"}}}

VARIABLES d, rng, known, past
vars == <<d, rng, known, past>>

Cfg == <<d>>
Learn(st, e) == LET k == st.known \cup Mentions(e, Cfg) IN [rng |-> LearnRanges(st.rng, e, Cfg, k), known |-> k]
Now == [rng |-> rng, known |-> known]

Init == /\ d \in Decls
        /\ rng = <<FirstRange(d)>>
        /\ known = {}
        /\ past = {}
Next == /\ Cardinality(past) < N
        /\ \E e \in Exprs : /\ e \notin past
                            /\ LET s == Learn(Now, e) IN rng' = s.rng /\ known' = s.known
                            /\ past' = past \cup {e}
        /\ UNCHANGED d
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a closed end never moves inwards, an open end closes for good
Outwards == [][/\ rng[1].lo # OpenLow(Ty) => NumLE(rng'[1].lo, rng[1].lo)
               /\ rng[1].hi # OpenHigh(Ty) => NumLE(rng[1].hi, rng'[1].hi)
               /\ rng[1].lo # OpenLow(Ty) => rng'[1].lo # OpenLow(Ty)
               /\ rng[1].top # <<>> => rng'[1].top # <<>> /\ rng'[1].top[1] >= rng[1].top[1]]_vars

\* learning again, in another order, or joined gives the same ranges
Again   == \A e \in past : Learn(Now, e) = Now
Commute == Cardinality(past) = 1 => \A a \in past, b \in Leaf :
             LET s0 == [rng |-> <<FirstRange(d)>>, known |-> {}]
                 s == Learn(Learn(s0, a), b) IN
             s = Learn(Learn(s0, b), a) /\ s = Learn(s0, And(a, b)) /\ s = Learn(s0, Or(b, a))

\* the range of a learned attribute is one: its ends are in order
Ordered == Ty \in {"i", "f", "il"} => NumLE(rng[1].lo, rng[1].hi)

\* beyond the range on either side all values are alike for what was learned; a learned
\* expression that mentions no constant of the attribute is alike everywhere
ValOf(x) == IF Ty = "il" THEN <<Num(x)>> ELSE Num(x)
Env(x) == <<<<ValOf(x)>>>>
Alike == Ty \in {"i", "il", "f"} =>
           \A e \in past : \A x, y \in Outer :
              \/ ~((NumLT(Num(x), rng[1].lo) /\ NumLT(Num(y), rng[1].lo)) \/ (NumLT(rng[1].hi, Num(x)) /\ NumLT(rng[1].hi, Num(y))))
              \/ Eval(e, Env(x)) = Eval(e, Env(y))

\* every value a learned condition names has a number within the range
Numbered == (Ty \in {"s", "sl"} /\ rng[1].top # <<>>) => \A m \in known : Cardinality(known) - 1 <= rng[1].top[1]
===============================================================================
