--------------------------------- MODULE BEGen ---------------------------------
(* Behaviours enumerated by the specification, to be replayed in the implementation.

   A family is a small universe of calls. A state is a history h: a sequence of choices
   out of the family's alphabet; every complete history is turned into one scenario
   (declarations, the chosen calls, the queries that follow) and printed. The recorded
   scenario is then judged by BETrace like any other.

   GEN_FAM   names of the families, separated by blanks
   GEN_MOD, GEN_RES   only histories of that residue class are printed                  *)
EXTENDS BEIndex, Json, IOUtils

VARIABLES fam, h
vars == <<fam, h>>

-----------------------------------------------------------------------------
(* Text.                                                                              *)
Alphabet == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~\"\\"
AsciiOrder == <<32, 33, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47>>
         \o [i \in 1..43 |-> 47 + i] \o <<91, 93, 94, 95, 96>> \o [i \in 1..26 |-> 96 + i] \o <<123, 124, 125, 126, 34, 92>>
CodeOf == [c \in {SubSeq(Alphabet, i, i) : i \in 1..Len(Alphabet)} |->
             AsciiOrder[CHOOSE i \in 1..Len(Alphabet) : SubSeq(Alphabet, i, i) = c]]
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

RECURSIVE JoinFrom(_, _, _)
JoinFrom(parts, sep, i) ==
    IF i > Len(parts) THEN ""
    ELSE IF i = Len(parts) THEN parts[i] ELSE parts[i] \o sep \o JoinFrom(parts, sep, i + 1)
Join(parts, sep) == JoinFrom(parts, sep, 1)
NonEmpty(parts) == SelectSeq(parts, LAMBDA p : p # "")
S(n) == ToString(n)

Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE Prod(_)
Prod(ss) == IF ss = <<>> THEN <<<<>>>>
            ELSE LET r == Prod(Tail(ss)) IN Flat([i \in 1..Len(Head(ss)) |-> [j \in 1..Len(r) |-> <<Head(ss)[i]>> \o r[j]]])
\* all sequences over s of a length in n..m
RECURSIVE Words(_, _)
Words(s, n) == IF n = 0 THEN <<<<>>>> ELSE Prod([i \in 1..n |-> s])
UpTo(s, n, m) == Flat([i \in 1..(m - n + 1) |-> Words(s, n + i - 1)])
Commas(ss) == Map(LAMBDA x : Join(x, ","), ss)

-----------------------------------------------------------------------------
(* Calls.                                                                             *)
NoTwin == [m |-> "none", g |-> 0]
Mk(t, cap) == <<[a |-> "make", t |-> t, cap |-> cap, part |-> 0]>>
VarOf(t, nm, ty, und, lo, hi, cap) ==      \* lo, hi: <<>> or <<number>>; cap: 0 = unlimited
    <<[a |-> "var", t |-> t, nm |-> B(nm), ty |-> ty, und |-> und, lo |-> lo, hi |-> hi, cap |-> cap]>>
Ins(t, id, e) == <<[a |-> "ins", t |-> t, id |-> id, e |-> B(e), cs |-> <<>>]>>
InsC(t, id, e, cs) == <<[a |-> "ins", t |-> t, id |-> id, e |-> B(e), cs |-> cs]>>
Build(t, slot, id, e) == <<[a |-> "msub", t |-> t, slot |-> slot, id |-> id, e |-> B(e), cs |-> <<>>]>>
Put(t, slot) == <<[a |-> "isub", t |-> t, slot |-> slot]>>
Widen(t, e) == <<[a |-> "chb", t |-> t, e |-> B(e)]>>
SrchT(t, e, m, g) == <<[a |-> "search", t |-> t, e |-> B(e), reuse |-> FALSE, tw |-> [m |-> m, g |-> g]]>>
Srch(t, e) == SrchT(t, e, "none", 0)
More(t, e) == <<[a |-> "search", t |-> t, e |-> B(e), reuse |-> TRUE, tw |-> NoTwin]>>
ExT(t, e, m, g) == <<[a |-> "exists", t |-> t, e |-> B(e), tw |-> [m |-> m, g |-> g]]>>
Ex(t, e) == ExT(t, e, "none", 0)
\* fields: sequence of <<slot, name, type, value>>; numbers as limbs, strings as bytes
EvT(t, ops, fields, m, g) == <<[a |-> "event", t |-> t, ops |-> ops, fs |-> fields, tw |-> [m |-> m, g |-> g]]>>
Hold(t, slot, fields) == <<[a |-> "hold", t |-> t, slot |-> slot, fs |-> fields]>>
Ask(t, slot, ops, m, g) == <<[a |-> "ask", t |-> t, slot |-> slot, ops |-> ops, tw |-> [m |-> m, g |-> g]]>>
Drop(slot) == <<[a |-> "drop", slot |-> slot]>>
WalkT(t, m, g) == <<[a |-> "walk", t |-> t, tw |-> [m |-> m, g |-> g]]>>
Walk(t) == WalkT(t, "none", 0)
Free(t) == <<[a |-> "free", t |-> t]>>
VarText(t, line) == <<[a |-> "vart", t |-> t, e |-> line]>>
Clear(t) == <<[a |-> "empty", t |-> t]>>
Doms(t) == <<[a |-> "doms", t |-> t]>>
Ranges(t) == <<[a |-> "ranges", t |-> t, tw |-> NoTwin]>>
Defs(t, n) == <<[a |-> "defs", t |-> t, n |-> n]>>
Show(t, slot) == <<[a |-> "show", t |-> t, slot |-> slot]>>
Dup(t, slot, to, id) == <<[a |-> "dup", t |-> t, slot |-> slot, to |-> to, id |-> id]>>
Order(t, slots) == <<[a |-> "order", t |-> t, slots |-> slots]>>
BuildC(t, slot, id, e, cs) == <<[a |-> "msub", t |-> t, slot |-> slot, id |-> id, e |-> B(e), cs |-> cs]>>
Ledger == <<[a |-> "ledger"]>>

I(n) == <<NumOf(n)>>
Free_ == <<>>
\* attribute declarations: sequences of <<name, type, optional, lo, hi, count>>
Decl(t, as) == Flat([i \in 1..Len(as) |-> VarOf(t, as[i][1], as[i][2], as[i][3], as[i][4], as[i][5], as[i][6])])
New(t, cap, as) == Mk(t, cap) \o Decl(t, as)
Events(opts) == Map(LAMBDA p : "{" \o Join(NonEmpty(p), ", ") \o "}", Prod(opts))
\* field "name": one of the texts, or absent
Fld(nm, vs) == <<"">> \o Map(LAMBDA v : "\"" \o nm \o "\": " \o v, vs)
FldReq(nm, vs) == Map(LAMBDA v : "\"" \o nm \o "\": " \o v, vs)
InsAll(t, es) == Flat([i \in 1..Len(es) |-> Ins(t, i, es[i])])
SrchAll(t, evs) == Flat([i \in 1..Len(evs) |-> Srch(t, evs[i])])
Chunk(s, n, k) == SubSeq(s, (k - 1) * n + 1, IF k * n < Len(s) THEN k * n ELSE Len(s))
Chunks(s, n) == (Len(s) + n - 1) \div n

-----------------------------------------------------------------------------
(* Conditions of every kind over small constants.                                     *)
Cmp(v, cs) == Flat([i \in 1..Len(cs) |-> Flat(Map(LAMBDA o : <<v \o " " \o o \o " " \o cs[i], cs[i] \o " " \o o \o " " \o v>>,
                                                  <<"<", "<=", ">", ">=">>))])
Equ(v, cs) == Flat([i \in 1..Len(cs) |-> <<v \o " = " \o cs[i], v \o " <> " \o cs[i], cs[i] \o " = " \o v, cs[i] \o " <> " \o v>>])
Mem(v, ls) == Flat([i \in 1..Len(ls) |-> <<v \o " in (" \o ls[i] \o ")", v \o " not in (" \o ls[i] \o ")">>])
Lst(v, ls) == Flat([i \in 1..Len(ls) |-> <<v \o " one of (" \o ls[i] \o ")", v \o " none of (" \o ls[i] \o ")", v \o " all of (" \o ls[i] \o ")">>])
Has(v, cs) == Flat([i \in 1..Len(cs) |-> <<cs[i] \o " in " \o v, cs[i] \o " not in " \o v>>])
Brk(ls) == Map(LAMBDA x : "[" \o x \o "]", ls)

IntC == <<"-1", "0", "1", "3", "4">>
IntV == <<"-2", "-1", "0", "1", "2", "3", "4", "5">>
IntE == Cmp("v", IntC) \o Equ("v", IntC) \o Mem("v", Commas(UpTo(<<"0", "3", "1">>, 1, 3))) \o <<"v is null", "v is not null">>
FltC == <<"0", "0.5", "1", "1.25", "-0.5">>
FltV == <<"-0.5", "-0.25", "0", "0.0", "0.25", "0.5", "1", "1.0", "1.125", "1.25", "2.5">>
FltE == Cmp("v", FltC) \o Equ("v", FltC) \o <<"v is null", "v is not null">>
StrC == <<"''", "'a'", "'b'", "'ab'">>
StrV == <<"\"\"", "\"a\"", "\"b\"", "\"ab\"", "\"ba\"", "\"aa\"", "\"A\"">>
StrE == Equ("v", StrC) \o Mem("v", Commas(UpTo(<<"'b'", "''", "'ab'">>, 1, 3))) \o <<"v is null", "v is not null">>
ILsE == Lst("v", Commas(UpTo(<<"3", "0", "1">>, 1, 3))) \o Has("v", <<"0", "1", "2", "-1">>) \o <<"v is empty", "v is null", "v is not null">>
ILsV == Brk(Commas(UpTo(<<"0", "3", "2", "1">>, 0, 3)))
SLsE == Lst("v", Commas(UpTo(<<"'b'", "''", "'ab'">>, 1, 3))) \o Has("v", <<"'b'", "''", "'x'">>) \o <<"v is empty", "v is null", "v is not null">>
SLsV == Brk(Commas(UpTo(<<"\"\"", "\"ab\"", "\"x\"", "\"b\"">>, 0, 3)))
EnmE == Equ("v", <<"0", "1", "7", "-3">>) \o <<"v is null", "v is not null">>
EnmV == <<"0", "1", "7", "-3", "2", "99">>
BooE == <<"v", "not v", "v is null", "v is not null">>
BooV == <<"true", "false">>

\* <<type, lo, hi, conditions, values>>
Types == << <<"i", Free_, Free_, IntE, IntV>>, <<"i", I(0), I(3), IntE, IntV>>,
            <<"f", Free_, Free_, FltE, FltV>>, <<"f", I(0), I(1), FltE, FltV>>,
            <<"s", Free_, Free_, StrE, StrV>>, <<"il", Free_, Free_, ILsE, ILsV>>,
            <<"il", I(0), I(3), ILsE, ILsV>>, <<"sl", Free_, Free_, SLsE, SLsV>>,
            <<"ie", Free_, Free_, EnmE, EnmV>>, <<"b", Free_, Free_, BooE, BooV>> >>
\* expressions that a declared range admits: constants outside it are not generated
Within3(e) == TRUE

(* family leaf: all conditions of one type together, on all values; the second choice
   is the node capacity, the third negates every condition                            *)
LeafCase(k, cap, neg) ==
    LET ty == Types[k]
        es == IF neg THEN Map(LAMBDA e : "not (" \o e \o ")", ty[4]) ELSE ty[4]
    IN  New(0, cap, <<<<"v", ty[1], TRUE, ty[2], ty[3], 0>>>>)
        \o InsAll(0, es) \o Walk(0) \o SrchAll(0, Events(<<Fld("v", ty[5])>>)) \o Free(0)

-----------------------------------------------------------------------------
(* family conn: connectives over a few conditions, on every presence subset            *)
ConnA == << <<"b", "b", TRUE, Free_, Free_, 0>>, <<"i", "i", TRUE, Free_, Free_, 0>>,
            <<"s", "s", TRUE, Free_, Free_, 0>>, <<"l", "il", TRUE, Free_, Free_, 0>> >>
ConnE == Events(<<Fld("b", BooV), Fld("i", <<"1", "2">>), Fld("s", <<"\"a\"", "\"b\"">>), Fld("l", <<"[]", "[1]">>)>>)
Leaves == <<"b", "i > 1", "s = 'a'", "l one of (1)", "i is null", "b is not null", "l none of (1)", "s <> 'a'", "true", "i in (1)">>
Signed == Leaves \o Map(LAMBDA x : "not (" \o x \o ")", Leaves)
Pairs == Flat([i \in 1..Len(Signed) |-> Flat([j \in 1..Len(Signed) |->
            <<"(" \o Signed[i] \o ") and (" \o Signed[j] \o ")", "(" \o Signed[i] \o ") or (" \o Signed[j] \o ")">>])])
PairsN == Pairs \o Map(LAMBDA x : "not (" \o x \o ")", Pairs)
ConnCase(k) == New(0, 255, ConnA) \o InsAll(0, Chunk(PairsN, 20, k)) \o SrchAll(0, ConnE) \o Free(0)
\* three conditions: pairs[a] combined with twenty signed conditions
Conn3Case(k, o) ==
    LET es == [j \in 1..Len(Signed) |-> IF o = 1 THEN "(" \o PairsN[k] \o ") and (" \o Signed[j] \o ")"
                                        ELSE IF o = 2 THEN "(" \o Signed[j] \o ") or (" \o PairsN[k] \o ")"
                                        ELSE IF o = 3 THEN "not ((" \o PairsN[k] \o ") or (" \o Signed[j] \o "))"
                                        ELSE "(" \o PairsN[((k * 7) % Len(PairsN)) + 1] \o ") and (" \o PairsN[((k * 31 + j) % Len(PairsN)) + 1] \o ")"]
    IN  New(0, 255, ConnA) \o InsAll(0, es) \o SrchAll(0, ConnE) \o Free(0)

-----------------------------------------------------------------------------
(* family tok*: all short token strings; only acceptance and what the accepted mean    *)
Toks == [ bool |-> <<"b", "c", "not", "and", "or", "(", ")", "true">>,
          cmp  |-> <<"i", "1", "-", "=", "<", "<>", ">=", "and", "not">>,
          list |-> <<"l", "(", ")", "1", ",", "one of", "in", "not in", "-">>,
          str  |-> <<"s", "'a'", "=", "in", "(", ")", ",", "is null", "not">>,
          fun  |-> <<"contains", "s", "(", ")", ",", "'a'", "is empty", "l", "not">> ]
TokA == << <<"b", "b", TRUE, Free_, Free_, 0>>, <<"c", "b", TRUE, Free_, Free_, 0>>, <<"i", "i", TRUE, Free_, Free_, 0>>,
           <<"s", "s", TRUE, Free_, Free_, 0>>, <<"l", "il", TRUE, Free_, Free_, 0>> >>
TokEv == [ bool |-> Events(<<Fld("b", BooV), Fld("c", BooV)>>), cmp |-> Events(<<Fld("i", <<"-1", "0", "1", "2">>)>>),
           list |-> Events(<<Fld("l", <<"[]", "[1]", "[-1, 1]", "[2]">>)>>), str |-> Events(<<Fld("s", <<"\"a\"", "\"b\"", "\"\"">>)>>),
           fun |-> Events(<<Fld("s", <<"\"ba\"", "\"b\"">>), Fld("l", <<"[]", "[1]">>)>>) ]
\* a history fixes all tokens but the last two
TokCase(f, hh) ==
    LET al == Toks[f]
        pre == [j \in 1..(Len(hh) - 1) |-> al[hh[j]]]
        glue == IF hh[Len(hh)] % 2 = 0 THEN " " ELSE IF hh[Len(hh)] % 4 = 1 THEN "" ELSE "  "
        es == Map(LAMBDA x : Join(x, glue), Map(LAMBDA w : pre \o w, UpTo(al, 1, 2)))
    IN  New(0, 255, TokA) \o Flat([j \in 1..Len(es) |-> Build(0, j - 1, j, es[j]) \o Put(0, j - 1)])
        \o SrchAll(0, TokEv[f]) \o Free(0)

-----------------------------------------------------------------------------
(* family hist*: insertion histories on an index that splits                           *)
HistP == [ hi |-> <<"i = 0", "i <= 1", "i >= 2", "i = 3", "i in (1,2)", "i > 1 and b", "i < 2 or b", "not (i = 2)", "i is null", "not b",
                    "i <> 1", "i not in (0,3)", "not (i > 0)", "true">>,
           hf |-> <<"f = 0.0", "f <= 0.5", "f >= 1.5", "f = 3", "f < 1", "f > 1.25 and b", "f < 2 or b", "not (f = 1.5)", "f is null", "not (f > 0.5)",
                    "f <> 0.5", "f > 2.5", "not (f >= 3)", "f >= 0">>,
           hl |-> <<"l one of (0)", "l one of (1,2)", "l none of (3)", "l all of (0,3)", "l all of (2)", "2 in l", "0 not in l", "l is empty",
                    "not (l one of (0,1))", "l one of (3) and b", "l none of (0,1) or b", "not (l all of (1))", "l is not null", "not (3 in l)">>,
           hs |-> <<"s = 'p'", "s = 'q'", "s in ('r','p')", "s <> 'q'", "s not in ('p','t')", "not (s = 'r')", "s = 't' and b", "s = 'p' or b", "s is null",
                    "contains(s, 'p')", "s in ('t')", "not (s in ('q','r'))", "s = 'q' and z = 'p'", "z = 'q'">>,
           hm |-> <<"m one of ('p')", "m one of ('r','q')", "m none of ('q')", "m all of ('p','q')", "'t' in m", "'p' not in m", "m is empty",
                    "not (m one of ('p','t'))", "m all of ('t') and b", "m none of ('p') or b", "not (m all of ('q'))", "m is null", "not ('r' in m)", "not (m none of ('r'))">>,
           he |-> <<"e = 0", "e = 5", "e <> 5", "e = 7 and b", "e = 9 or b", "not (e = 0)", "e is null", "not (e <> 7)", "e = 9", "e <> 0 and e <> 9",
                    "e = 0 or e = 5", "b", "not b", "e = 7">>,
           hj |-> <<"i = 2147483646", "i <= 2147483647", "i >= 2147483648", "i = 2147483649", "i in (2147483647,2147483648)", "i > 2147483647 and b", "i < 2147483648 or b", "not (i = 2147483648)", "i is null", "not b", "i <> 2147483647", "i not in (2147483646,2147483649)", "not (i > 2147483646)", "i = 2147483646 or i = 2147483649">>,
           hn |-> <<"i = -2147483650", "i <= -2147483649", "i >= -2147483648", "i = -2147483647", "i in (-2147483649,-2147483648)", "i > -2147483649 and b", "i < -2147483648 or b", "not (i = -2147483648)", "i is null", "not b", "i <> -2147483649", "i not in (-2147483650,-2147483647)", "not (i > -2147483650)", "i = -2147483650 or i = -2147483647">>,
           hw |-> <<"l one of (4294967294)", "l one of (4294967295,4294967296)", "l none of (4294967297)", "l all of (4294967294,4294967297)", "l all of (4294967296)", "4294967296 in l", "4294967294 not in l", "l is empty", "not (l one of (4294967294,4294967295))", "l one of (4294967297) and b", "l none of (4294967294,4294967295) or b", "not (l all of (4294967295))", "l is not null", "not (4294967297 in l)">>,
           hv |-> <<"f = 2147483646.0", "f <= 2147483646.5", "f >= 2147483647.5", "f = 2147483649.0", "f < 2147483647.0", "f > 2147483647.25 and b", "f < 2147483648.0 or b", "not (f = 2147483647.5)", "f is null", "not (f > 2147483646.5)", "f <> 2147483646.5", "f > 2147483648.5", "not (f >= 2147483649.0)", "f = 2147483646.5 or f = 2147483649.0">>,
           h2 |-> <<"i = 0", "j = 3", "i = 1 and j = 1", "i >= 2 and j <= 1", "i < 1 or j > 2", "not (i = 3 or j = 0)", "i <> 2", "j not in (1,2)", "i = 2 and not (j > 1)", "j <= 1", "i > 2 or i < 1", "i = 0 and j is null", "not (i >= 1 and j >= 1)", "i in (1,2) and j in (0,3)">>,
           h3 |-> <<"s = 'p' and i = 1", "i = 3", "s = 'q'", "s <> 'r' and i < 2", "l one of (0)", "l one of (3) and s = 'p'", "l none of (0,1) or i = 2", "i > 1 and 2 in l", "s in ('q','r') or i = 0", "not (s = 'p' and i > 1)", "l all of (1,2) and i <> 1", "not (l one of (2) or s = 'q')", "i <= 1 or l is empty", "s = 'r' or l one of (1,3)">>,
           hr |-> <<"i = 0", "i <= 1 and s = 'p'", "i >= 2", "i = 3 or s = 'q'", "s = 'r'", "s <> 'q'", "not (i = 2)", "s in ('p','q') and i > 0", "l one of (1)", "l none of (0,3)", "not (s = 'p' or l one of (2))", "i <> 1 and l all of (0,3)", "l is empty or i = 2", "2 in l">>,
           hb |-> <<"b", "not b", "c", "not c", "b and c", "b or c", "not (b and c)", "b and not c", "b is null", "d is not null", "b or not c",
                    "not b and not c", "d", "b and d">> ]
HistA == [ hi |-> << <<"i", "i", TRUE, I(0), I(3), 0>>, <<"b", "b", TRUE, Free_, Free_, 0>> >>,
           hf |-> << <<"f", "f", TRUE, I(0), I(3), 0>>, <<"b", "b", TRUE, Free_, Free_, 0>> >>,
           hl |-> << <<"l", "il", TRUE, I(0), I(3), 0>>, <<"b", "b", TRUE, Free_, Free_, 0>> >>,
           hs |-> << <<"s", "s", TRUE, Free_, Free_, 4>>, <<"b", "b", TRUE, Free_, Free_, 0>>, <<"z", "s", TRUE, Free_, Free_, 0>> >>,
           hm |-> << <<"m", "sl", TRUE, Free_, Free_, 4>>, <<"b", "b", TRUE, Free_, Free_, 0>> >>,
           he |-> << <<"b", "b", TRUE, Free_, Free_, 0>>, <<"e", "ie", TRUE, Free_, Free_, 4>> >>,
           hj |-> << <<"i", "i", TRUE, <<<<0, 0, 2147, 483646, 0>>>>, <<<<0, 0, 2147, 483649, 0>>>>, 0>>, <<"b", "b", TRUE, Free_, Free_, 0>> >>,
           hn |-> << <<"i", "i", TRUE, <<NumNeg(<<0, 0, 2147, 483650, 0>>)>>, <<NumNeg(<<0, 0, 2147, 483647, 0>>)>>, 0>>, <<"b", "b", TRUE, Free_, Free_, 0>> >>,
           hw |-> << <<"l", "il", TRUE, <<<<0, 0, 4294, 967294, 0>>>>, <<<<0, 0, 4294, 967297, 0>>>>, 0>>, <<"b", "b", TRUE, Free_, Free_, 0>> >>,
           hv |-> << <<"f", "f", TRUE, <<<<0, 0, 2147, 483646, 0>>>>, <<<<0, 0, 2147, 483649, 0>>>>, 0>>, <<"b", "b", TRUE, Free_, Free_, 0>> >>,
           h2 |-> << <<"i", "i", TRUE, I(0), I(3), 0>>, <<"j", "i", TRUE, I(0), I(3), 0>> >>,
           h3 |-> << <<"s", "s", TRUE, Free_, Free_, 3>>, <<"i", "i", TRUE, I(0), I(3), 0>>, <<"l", "il", TRUE, I(0), I(3), 0>> >>,
           hr |-> << <<"i", "i", FALSE, I(0), I(3), 0>>, <<"s", "s", FALSE, Free_, Free_, 3>>, <<"l", "il", FALSE, I(0), I(3), 0>> >>,
           hb |-> << <<"b", "b", TRUE, Free_, Free_, 0>>, <<"c", "b", FALSE, Free_, Free_, 0>>, <<"d", "b", TRUE, Free_, Free_, 0>> >> ]
HistE == [ hi |-> Events(<<Fld("i", <<"0", "1", "2", "3", "-5", "9">>), Fld("b", BooV)>>),
           hf |-> Events(<<Fld("f", <<"0", "0.5", "1", "1.375", "1.5", "2.75", "3", "-5.5", "9">>), Fld("b", <<"true">>)>>),
           hl |-> Events(<<Fld("l", <<"[]", "[0]", "[2]", "[3]", "[1,2]", "[0,3]", "[3,0,1]", "[-4]", "[-4,2]", "[9]", "[0,9]">>), Fld("b", <<"true">>)>>),
           hs |-> Events(<<Fld("s", <<"\"p\"", "\"q\"", "\"r\"", "\"t\"", "\"u\"">>), Fld("b", <<"true">>), Fld("z", <<"\"p\"", "\"q\"">>)>>),
           hm |-> Events(<<Fld("m", <<"[]", "[\"p\"]", "[\"q\"]", "[\"t\"]", "[\"q\",\"p\"]", "[\"u\"]", "[\"u\",\"p\"]", "[\"t\",\"r\",\"q\"]">>), Fld("b", <<"true">>)>>),
           he |-> Events(<<Fld("e", <<"0", "5", "7", "9", "4">>), Fld("b", BooV)>>),
           hj |-> Events(<<Fld("i", <<"2147483646", "2147483647", "2147483648", "2147483649", "0", "2147483700", "-2147483648">>), Fld("b", BooV)>>),
           hn |-> Events(<<Fld("i", <<"-2147483650", "-2147483649", "-2147483648", "-2147483647", "0", "-2147483700", "2147483647">>), Fld("b", BooV)>>),
           hw |-> Events(<<Fld("l", <<"[]", "[4294967294]", "[4294967296]", "[4294967297]", "[4294967295,4294967296]", "[4294967294,4294967297]", "[-2]", "[1]", "[0,4294967297]">>), Fld("b", <<"true">>)>>),
           hv |-> Events(<<Fld("f", <<"2147483646", "2147483646.5", "2147483647", "2147483647.375", "2147483647.5", "2147483648.75", "2147483649", "-2147483647", "9">>), Fld("b", <<"true">>)>>),
           h2 |-> Events(<<Fld("i", <<"0", "1", "2", "3", "-5">>), Fld("j", <<"0", "1", "2", "3", "9">>)>>),
           h3 |-> Events(<<Fld("s", <<"\"p\"", "\"q\"", "\"u\"">>), Fld("i", <<"0", "1", "3">>), Fld("l", <<"[]", "[0]", "[1,2]", "[2,3]">>)>>),
           hr |-> Events(<<FldReq("i", <<"0", "1", "2", "3">>), FldReq("s", <<"\"p\"", "\"q\"", "\"r\"">>), FldReq("l", <<"[]", "[0,3]", "[1]", "[2]">>)>>),
           hb |-> Events(<<Fld("b", BooV), FldReq("c", BooV), Fld("d", BooV)>>) ]
\* the first choice is the node capacity
HistIns(f, hh) == Flat([j \in 1..(Len(hh) - 1) |-> Ins(0, j, HistP[f][hh[j + 1]]) \o Walk(0)])
HistCase(f, hh) == New(0, hh[1], HistA[f]) \o HistIns(f, hh) \o SrchAll(0, HistE[f]) \o Free(0)
\* only the structure
GrowCase(f, hh) == New(0, hh[1], HistA[f]) \o HistIns(f, hh) \o Free(0)
\* compared with an index that never splits, and asked for existence
PairCase(f, hh) ==
    New(0, 255, Map(LAMBDA a : [a EXCEPT ![4] = <<>>, ![5] = <<>>, ![6] = 0], HistA[f]))
    \o New(1, hh[1], HistA[f])
    \o Flat([j \in 1..(Len(hh) - 1) |-> Ins(0, j, HistP[f][hh[j + 1]])])
    \o Flat([j \in 1..(Len(hh) - 1) |-> Ins(1, Len(hh) - j, HistP[f][hh[Len(hh) + 1 - j]])])
    \o Flat([j \in 1..Len(HistE[f]) |-> SrchT(0, HistE[f][j], "set", j) \o SrchT(1, HistE[f][j], "eq", j) \o ExT(1, HistE[f][j], "ex", j)])
    \o Free(0) \o Free(1)

-----------------------------------------------------------------------------
(* family caps: one entry on the grid of boundaries, twelve caps at a time              *)
CapA == << <<"frequency_caps", "fc", TRUE, Free_, Free_, 0>>, <<"now", "i", TRUE, Free_, Free_, 0>> >>
Cst == <<[nm |-> B("flight_id"), x |-> NumOf(10)], [nm |-> B("campaign_id"), x |-> NumOf(20)], [nm |-> B("advertiser_id"), x |-> NumOf(30)],
         [nm |-> B("product_id"), x |-> NumOf(40)], [nm |-> B("campaign_group_id"), x |-> NumOf(50)]>>
CapKinds == <<"campaign", "campaign:ip", "flight", "flight:ip", "advertiser", "advertiser:ip", "product", "product:ip", "campaign_group", "campaign_group:ip">>
CapE(k) == Flat([i \in 1..3 |-> Flat([j \in 1..3 |-> Map(LAMBDA ns :
              "within_frequency_cap('" \o k \o "', '" \o ns \o "', " \o S(i - 1) \o ", " \o <<"0", "1", "10">>[j] \o ")", <<"n", "">>)])])
IdFor == [k \in SeqSet(CapKinds) |-> CASE k \in {"campaign", "campaign:ip"} -> "20" [] k \in {"flight", "flight:ip"} -> "10"
            [] k \in {"advertiser", "advertiser:ip"} -> "30" [] k \in {"product", "product:ip"} -> "40" [] OTHER -> "50"]
Ages == <<"1000000000", "999999999", "999000000", "998999999", "990000000", "989999999", "989000000", "988999999", "0", "1001000000">>
CapEntries(k) == Flat(Map(LAMBDA id : Flat(Map(LAMBDA ns : Flat(Map(LAMBDA c : Map(LAMBDA ts :
                    "[\"" \o k \o "\", " \o id \o ", \"" \o ns \o "\", " \o c \o ", " \o ts \o "]", Ages), <<"0", "1", "2">>)), <<"n", "">>)),
                    <<IdFor[k], "21">>))
CapCase(k, k2) ==
    LET es == CapE(CapKinds[k]) IN
    New(0, 255, CapA) \o Flat([i \in 1..Len(es) |-> InsC(0, i, es[i], Cst)])
    \o Flat(Map(LAMBDA x : Srch(0, "{\"now\": 1000, \"frequency_caps\": [" \o x \o "]}"), CapEntries(CapKinds[k2])))
    \o Srch(0, "{\"now\": 1000, \"frequency_caps\": []}") \o Srch(0, "{\"now\": 1000}") \o Srch(0, "{\"frequency_caps\": []}")
    \o Free(0)
\* two entries: the first that fits decides
Cap2Case(k, r) ==
    LET es == CapE(CapKinds[k])  xs == CapEntries(CapKinds[k])  n == Len(xs) IN
    New(0, 255, CapA) \o Flat([i \in 1..Len(es) |-> InsC(0, i, es[i], Cst)])
    \o Flat([j \in 1..60 |-> Srch(0, "{\"frequency_caps\": [" \o xs[((j * 7 + r * 13) % n) + 1] \o ", " \o xs[((j * 11 + r * 29) % n) + 1] \o "], \"now\": 1000}")])
    \o Free(0)

(* family segs: one or two entries on the grid of boundaries                            *)
SegA == << <<"segments_with_timestamp", "seg", TRUE, Free_, Free_, 0>>, <<"now", "i", TRUE, Free_, Free_, 0>>, <<"w", "seg", TRUE, Free_, Free_, 0>> >>
SegE == Flat(Map(LAMBDA f : Flat(Map(LAMBDA id : Flat(Map(LAMBDA c :
           <<"segment_" \o f \o "(" \o id \o ", " \o c \o ")", "not segment_" \o f \o "(w, " \o id \o ", " \o c \o ")">>, <<"0", "1", "10">>)),
           <<"1", "2">>)), <<"within", "before">>))
SegEn(id) == Map(LAMBDA ts : "[" \o id \o ", " \o ts \o "]", Ages)
SegLists == <<"[]">> \o Brk(SegEn("1")) \o Brk(SegEn("2")) \o Brk(SegEn("3")) \o Brk(Commas(Prod(<<SegEn("1"), SegEn("2")>>)))
            \o Brk(Commas(Prod(<<SegEn("0"), <<"[1, 990000000]", "[1, 989999999]", "[2, 999000000]">>>>)))
SegCase(k) ==
    New(0, 255, SegA) \o InsAll(0, SegE)
    \o Flat(Map(LAMBDA x : Srch(0, "{\"now\": 1000, \"segments_with_timestamp\": " \o x \o "}"), Chunk(SegLists, 40, k)))
    \o Flat(Map(LAMBDA x : Srch(0, "{\"w\": " \o x \o ", \"now\": 1000}"), Chunk(SegLists, 40, k)))
    \o Srch(0, "{\"now\": 1000}") \o Srch(0, "{\"w\": [], \"segments_with_timestamp\": [[1, 1000000000]]}") \o Free(0)

(* family pats: all short patterns on all short texts                                   *)
PatA == << <<"s", "s", TRUE, Free_, Free_, 0>> >>
PatW == Map(LAMBDA x : Join(x, ""), UpTo(<<"a", "b">>, 0, 3))
PatT == Map(LAMBDA x : Join(x, ""), UpTo(<<"a", "b">>, 0, 5))
PatCase(k) ==
    New(0, 255, PatA)
    \o InsAll(0, Flat(Map(LAMBDA f : Map(LAMBDA p : f \o "(s, '" \o p \o "')", PatW), <<<<"contains", "starts_with", "ends_with">>[k]>>)))
    \o SrchAll(0, Events(<<Fld("s", Map(LAMBDA x : "\"" \o x \o "\"", PatT))>>)) \o Free(0)

-----------------------------------------------------------------------------
(* family req: every mixture of required and optional attributes, present, null, absent *)
ReqA(k) == [j \in 1..3 |-> <<<<"x", "y", "z">>[j], <<"b", "i", "il">>[j], ((k \div <<1, 2, 4>>[j]) % 2) = 0, Free_, Free_, 0>>]
ReqE == Events(<<<<"", "\"x\": null", "\"x\": true">>, <<"", "\"y\": null", "\"y\": 0">>, <<"", "\"z\": null", "\"z\": []">>>>)
ReqV == <<NumOf(0)>>
ReqCase(k, subs) ==
    New(0, 3, ReqA(k))
    \o (IF subs = 1 THEN <<>> ELSE IF subs = 2 THEN Ins(0, 1, "true")
        ELSE InsAll(0, <<"x", "y = 0", "z is empty", "not x", "y > 0 or x", "not (y = 0)">>))
    \o Flat(Map(LAMBDA e : Srch(0, e) \o Ex(0, e), ReqE))
    \o Flat(Map(LAMBDA p : EvT(0, "sx", Flat(p), "none", 0),
                Prod(<<<<<<>>, <<<<0, B("x"), "b", TRUE>>>>>>, <<<<>>, <<<<1, B("y"), "i", NumOf(0)>>>>>>, <<<<>>, <<<<2, B("z"), "il", <<>>>>>>>>>>)))
    \o Free(0)

-----------------------------------------------------------------------------
(* family share: every ordered pair of conditions that differ in one place              *)
ShareA == << <<"i", "i", TRUE, Free_, Free_, 0>>, <<"j", "i", TRUE, Free_, Free_, 0>>, <<"f", "f", TRUE, Free_, Free_, 0>>, <<"s", "s", TRUE, Free_, Free_, 0>>,
             <<"l", "il", TRUE, Free_, Free_, 0>>, <<"m", "sl", TRUE, Free_, Free_, 0>>, <<"b", "b", TRUE, Free_, Free_, 0>>,
             <<"segments_with_timestamp", "seg", TRUE, Free_, Free_, 0>>, <<"w", "seg", TRUE, Free_, Free_, 0>>, <<"now", "i", TRUE, Free_, Free_, 0>>,
             <<"frequency_caps", "fc", TRUE, Free_, Free_, 0>>, <<"latitude", "f", TRUE, Free_, Free_, 0>>, <<"longitude", "f", TRUE, Free_, Free_, 0>> >>
ShareG == << << <<"i < 1", "i <= 1", "i > 1", "i >= 1", "i < 2", "j < 1", "i = 1", "i <> 1", "i in (1)", "i not in (1)", "i in (1,2)", "i in (2,1)", "i in (1,1)", "i is null", "i is not null", "1 > i">>,
                Events(<<Fld("i", <<"0", "1", "2">>), Fld("j", <<"0", "1">>)>>) >>,
             << <<"f < 1.0", "f <= 1.0", "f < 1", "f < 1.25", "f > 1.0", "f >= 1.0", "f = 1.0", "f = 1", "f <> 1.0", "f is null", "latitude < 1.0", "f = 1.5">>,
                Events(<<Fld("f", <<"0.5", "1", "1.25", "1.5">>), Fld("latitude", <<"0.5">>)>>) >>,
             << <<"s = 'a'", "s <> 'a'", "s = 'b'", "s in ('a')", "s in ('a','b')", "s in ('b','a')", "s not in ('a')", "contains(s, 'a')", "starts_with(s, 'a')", "ends_with(s, 'a')",
                  "contains(s, 'b')", "contains(s, 'ab')", "s is null", "s is not null">>,
                Events(<<Fld("s", <<"\"a\"", "\"b\"", "\"ab\"", "\"ba\"">>)>>) >>,
             << <<"l one of (1)", "l none of (1)", "l all of (1)", "l one of (1,2)", "l one of (2,1)", "l all of (2,1)", "1 in l", "1 not in l", "2 in l", "l is empty", "l is null", "l is not null">>,
                Events(<<Fld("l", <<"[]", "[1]", "[2]", "[1,2]">>)>>) >>,
             << <<"m one of ('a')", "m none of ('a')", "m all of ('a')", "m one of ('a','b')", "m one of ('b','a')", "m all of ('b','a')", "'a' in m", "'a' not in m", "'b' in m", "m is empty", "m is null">>,
                Events(<<Fld("m", <<"[]", "[\"a\"]", "[\"b\"]", "[\"b\",\"a\"]">>)>>) >>,
             << <<"segment_within(1, 10)", "segment_before(1, 10)", "segment_within(2, 10)", "segment_within(1, 20)", "segment_within(w, 1, 10)", "segment_before(w, 1, 10)",
                  "segment_within(segments_with_timestamp, 1, 10)", "not segment_within(1, 10)">>,
                Events(<<Fld("segments_with_timestamp", <<"[[1, 995000000]]", "[[1, 985000000],[2, 999000000]]">>), Fld("w", <<"[[1, 975000000]]", "[[1, 999000000]]">>), FldReq("now", <<"1000">>)>>) >>,
             << <<"within_frequency_cap('flight', 'n', 1, 0)", "within_frequency_cap('flight', 'n', 2, 0)", "within_frequency_cap('flight', 'n', 1, 10)", "within_frequency_cap('flight', 'm', 1, 0)",
                  "within_frequency_cap('campaign', 'n', 1, 0)", "within_frequency_cap('flight:ip', 'n', 1, 0)", "not within_frequency_cap('flight', 'n', 1, 0)">>,
                Events(<<Fld("frequency_caps", <<"[]", "[[\"flight\", 10, \"n\", 1, 980000000]]", "[[\"campaign\", 20, \"n\", 1, 0]]", "[[\"flight:ip\", 10, \"n\", 1, 0]]",
                                                "[[\"flight\", 10, \"m\", 1, 0]]", "[[\"flight\", 10, \"n\", 2, 0]]">>), FldReq("now", <<"1000">>)>>) >>,
             << <<"geo_within_radius(10, 20, 100)", "geo_within_radius(10, 20, 300)", "geo_within_radius(12, 20, 100)", "geo_within_radius(10, 22, 100)", "geo_within_radius(10.0, 20.0, 100.0)",
                  "not geo_within_radius(10, 20, 100)">>,
                Events(<<FldReq("latitude", <<"10", "12", "8">>), FldReq("longitude", <<"20", "22", "18">>)>>) >>,
             << <<"b", "not b", "true", "false", "b and b", "b or b", "b is null", "b is not null", "not (b and b)", "b and i = 1", "i = 1 and b", "b or i = 1", "b and i <> 1", "not b and i = 1", "not (b and i = 1)">>,
                Events(<<Fld("b", BooV), Fld("i", <<"1", "2">>)>>) >> >>
ShareIns(t, id, e) == InsC(t, id, e, Cst)
\* x, y, x again, and both joined
ShareCase(g, i, j) ==
    LET x == ShareG[g][1][i]  y == ShareG[g][1][j]  evs == ShareG[g][2]
        es == <<x, y, x, "(" \o x \o ") and (" \o y \o ")", "(" \o y \o ") or not (" \o x \o ")">>
    IN  New(0, 3, ShareA) \o Flat([n \in 1..5 |-> ShareIns(0, n, es[n])]) \o Walk(0)
        \o Flat([n \in 1..5 |-> New(n, 3, ShareA) \o ShareIns(n, n, es[n])])
        \o Flat([q \in 1..Len(evs) |-> Flat([n \in 1..5 |-> SrchT(n, evs[q], "add", q)]) \o SrchT(0, evs[q], "eq", q)])
        \o Flat([n \in 1..6 |-> Free(n - 1)])

-----------------------------------------------------------------------------
(* family ident: values of strings and enumerations in every order of first mention      *)
IdentP == <<"s = 'p'", "s <> 'q'", "s in ('r','p')", "z = 'p'", "z not in ('q','r')", "not (s = 'r')", "e = 7", "e <> 5", "m one of ('q','p')", "m all of ('r')",
            "s = 'q' and z = 'q'", "s in ('p','q','r')">>
IdentA(k) == << <<"s", "s", TRUE, Free_, Free_, k>>, <<"z", "s", TRUE, Free_, Free_, 0>>, <<"e", "ie", TRUE, Free_, Free_, 2>>, <<"m", "sl", TRUE, Free_, Free_, k>> >>
IdentE == Events(<<Fld("s", <<"\"p\"", "\"q\"", "\"r\"", "\"u\"">>), Fld("z", <<"\"p\"", "\"q\"">>)>>)
          \o Events(<<Fld("e", <<"7", "5", "6">>), Fld("m", <<"[\"p\"]", "[\"r\",\"u\"]", "[\"q\",\"r\"]">>)>>)
IdentCase(hh) ==
    New(0, 3, IdentA(hh[1])) \o Flat([j \in 1..(Len(hh) - 1) |-> Ins(0, j, IdentP[hh[j + 1]]) \o Srch(0, IdentE[2]) \o Srch(0, "{\"s\": \"r\", \"m\": [\"r\"]}")])
    \o SrchAll(0, IdentE) \o Free(0)

-----------------------------------------------------------------------------
(* family report: searches that reuse a report                                           *)
RepA == HistA.hi \o << <<"r", "b", FALSE, Free_, Free_, 0>> >>
RepP == <<"i > 1 and b", "b", "i = 2 or b", "not (i = 2)", "i is null", "not b">>
RepE == <<"{\"r\": true, \"i\": 2, \"b\": true}", "{\"r\": true, \"i\": 0}", "{\"r\": false, \"b\": false}", "{\"i\": 2, \"b\": true}", "{\"r\": true}">>
RepOps == Flat(Map(LAMBDA e : <<Srch(0, e), More(0, e)>>, RepE)) \o Map(LAMBDA e : Ins(0, 9, e), <<"i <= 2", "b and i = 2">>)
RepCase(hh) ==
    New(0, 2, RepA) \o InsAll(0, RepP) \o Walk(0)
    \o Flat([j \in 1..Len(hh) |-> IF RepOps[hh[j]][1].a = "ins" THEN Ins(0, 20 + j, <<"i <= 2", "b and i = 2">>[hh[j] - 10]) \o Walk(0) ELSE RepOps[hh[j]]])
    \o Free(0) \o Ledger

-----------------------------------------------------------------------------
(* family spell: one event in every spelling                                             *)
SpA == << <<"f", "f", TRUE, Free_, Free_, 0>>, <<"l", "il", TRUE, Free_, Free_, 0>>, <<"m", "sl", TRUE, Free_, Free_, 0>>, <<"b", "b", TRUE, Free_, Free_, 0>> >>
SpP == <<"f > 1", "f = 2", "f <> 2.5", "l one of (1,3)", "l all of (1,2)", "l none of (2)", "2 in l", "m one of ('a')", "m all of ('b','a')", "not (m none of ('b'))", "b or f < 3", "b is null and f >= 2">>
\* values: list of alternatives with the same meaning
SpV == << << <<"\"f\": 2", "\"f\": 2.0", "'F':2.00", "\"f\" :  2.0">>, <<"\"f\": 3", "\"F\": 3.0">>, <<"", "\"f\": null">> >>,
          << <<"\"l\": [1,2]", "\"l\": [2,1]", "\"L\":[ 2, 2 ,1,1 ]">>, <<"\"l\": [3]", "\"l\": [3,3]">>, <<"\"l\": []", "\"l\": [ ]">> >>,
          << <<"\"m\": [\"a\",\"b\"]", "\"m\": ['b','a']", "\"m\": ['b', 'a', \"b\"]">>, <<"\"m\": [\"c\"]", "'m' : [ 'c' , 'c']">>, <<"", "\"m\": null">> >>,
          << <<"\"b\": true", "\"B\":true">>, <<"", "\"b\": null">> >> >>
Perm4 == << <<1, 2, 3, 4>>, <<4, 3, 2, 1>>, <<2, 4, 1, 3>>, <<3, 1, 4, 2>>, <<1, 3, 2, 4>> >>
\* hh: value index per attribute
SpCase(hh, cap) ==
    LET alts == Prod([j \in 1..4 |-> SpV[j][hh[j]]])
        text(p, o) == "{" \o Join(NonEmpty([j \in 1..4 |-> p[o[j]]]), ",") \o "}"
    IN  New(0, cap, SpA) \o InsAll(0, SpP)
        \o Flat([n \in 1..Len(alts) |-> SrchT(0, text(alts[n], Perm4[(n % 5) + 1]), IF n = 1 THEN "set" ELSE "eq", 1)])
        \o Free(0)

-----------------------------------------------------------------------------
(* family phase: building and inserting interleaved, compared with direct insertion       *)
PhA(f) == HistA[f]
PhFree(f) == Map(LAMBDA a : IF a[2] \in {"i", "f", "il"} THEN [a EXCEPT ![4] = <<>>, ![5] = <<>>] ELSE IF a[2] \in {"s", "sl", "ie"} THEN [a EXCEPT ![6] = 0] ELSE a, HistA[f])
\* orders in which three expressions are built (1..3) and inserted (4..6)
RECURSIVE Merges(_, _)
Merges(done, n) == IF n = 0 THEN <<<<>>>>
    ELSE Flat([x \in 1..6 |-> IF x \in done \/ (x > 3 /\ (x - 3) \notin done) THEN <<>>
                              ELSE Map(LAMBDA r : <<x>> \o r, Merges(done \cup {x}, n - 1))])
Ph == Merges({}, 6)
PhCase(f, hh) ==
    LET es == [j \in 1..3 |-> HistP[f][hh[j + 1]]]
        decl == IF hh[1] % 2 = 0 THEN PhA(f) ELSE PhFree(f)
    IN  New(0, 255, PhFree(f)) \o InsAll(0, es) \o New(1, 1, decl)
        \o Flat([j \in 1..6 |-> LET x == Ph[hh[1]][j] IN IF x <= 3 THEN Build(1, x, x, es[x]) ELSE Put(1, x - 3)])
        \o Flat([j \in 1..Len(HistE[f]) |-> SrchT(0, HistE[f][j], "set", j) \o SrchT(1, HistE[f][j], "eq", j)])
        \o Free(0) \o Free(1)

-----------------------------------------------------------------------------
(* family calls: histories of every kind of call, good and bad, on one index; the good
   ones alone on a second index                                                           *)
CallA == << <<"i", "i", TRUE, I(0), I(5), 0>>, <<"s", "s", TRUE, Free_, Free_, 2>>, <<"r", "b", FALSE, Free_, Free_, 0>>, <<"frequency_caps", "fc", TRUE, Free_, Free_, 0>>, <<"now", "i", TRUE, Free_, Free_, 0>> >>
\* <<kind, text>>
Calls == << <<"ins", "i > 2 and s = 'p'">>, <<"ins", "s in ('q') or r">>, <<"ins", "i > 2 and">>, <<"ins", "s = 'x1' and u = 1">>, <<"ins", "s in ('x1','x2','x3')">>,
            <<"ins", "within_frequency_cap('flight', 'n', 1, 0) or s = 'y'">>, <<"ins", "i > 2">>,
            <<"build", "s <> 'p' and i > 2">>, <<"build", "s = 3">>, <<"build", "i in (1,2">>, <<"build", "s = 'z' or u = 'z'">>, <<"put", "">>,
            <<"widen", "s = 'p' or i > 2">>, <<"widen", "u = 's' and s = 'w'">>, <<"widen", "s = ">>,
            <<"search", "{\"r\": true, \"s\": \"p\", \"i\": 3}">>, <<"search", "{\"s\": \"p\"}">>, <<"exists", "{\"r\": false, \"i\": 3, \"s\": \"x1\"}">>, <<"exists", "{\"i\": 3}">> >>
\* abstract outcome of a history: which calls are accepted
CallIx == [nm \in {B(CallA[j][1]) : j \in 1..5} |-> CHOOSE j \in 1..5 : B(CallA[j][1]) = nm]
CallCfg == [j \in 1..5 |-> [nm |-> B(CallA[j][1]), ty |-> CallA[j][2], und |-> CallA[j][3], unb |-> CallA[j][6] = 0,
                            lo |-> NumZero, hi |-> NumZero, cap |-> CallA[j][6]]]
CallParsed == [c \in 1..Len(Calls) |->
    IF Calls[c][1] \notin {"ins", "build", "widen"} THEN [ok |-> FALSE, ms |-> {}]
    ELSE LET p == ParseExpr(B(Calls[c][2]))
             r == IF p.ok THEN Resolve(p.ast, CallIx) ELSE <<>>
         IN  IF p.ok /\ AllDeclared(r) /\ (Calls[c][1] = "widen" \/ ConstsOK(r, <<>>)) /\ (Calls[c][1] # "build" \/ WellTyped(r, CallCfg))
             THEN [ok |-> TRUE, ms |-> Mentions(r, CallCfg)] ELSE [ok |-> FALSE, ms |-> {}]]
\* known values and whether the slot is full, after the first n calls
RECURSIVE CallState(_, _)
CallState(hh, n) ==
    IF n = 0 THEN [known |-> {}, full |-> FALSE, ok |-> TRUE]
    ELSE LET s == CallState(hh, n - 1)  c == hh[n]  k == Calls[c][1]
             ok == CallParsed[c].ok /\ (k # "ins" \/ CapacityOK(CallParsed[c].ms, CallCfg, s.known))
         IN  IF k \in {"search", "exists"} THEN [s EXCEPT !.ok = TRUE]
             ELSE IF k = "put" THEN [s EXCEPT !.full = FALSE, !.ok = s.full]
             ELSE [known |-> IF ok THEN s.known \cup CallParsed[c].ms ELSE s.known, full |-> (k = "build" /\ ok) \/ s.full, ok |-> ok]
\* a second expression is not built while one waits to be inserted
CallOK(hh) == \A n \in 1..Len(hh) : Calls[hh[n]][1] = "build" => ~CallState(hh, n - 1).full
CallStep(t, n, c) ==
    LET k == Calls[c][1]  x == Calls[c][2] IN
    CASE k = "ins" -> Ins(t, n, x) [] k = "build" -> Build(t, t, n, x) [] k = "put" -> Put(t, t) [] k = "widen" -> Widen(t, x)
      [] k = "search" -> Srch(t, x) [] k = "exists" -> Ex(t, x)
CallE == Events(<<Fld("i", <<"1", "3", "7">>), Fld("s", <<"\"p\"", "\"q\"", "\"x1\"", "\"z\"">>), FldReq("r", BooV)>>)
CallCase(hh) ==
    New(0, 1, CallA) \o New(1, 1, CallA)
    \o Flat([n \in 1..Len(hh) |-> CallStep(0, n, hh[n])
                                  \o (IF CallState(hh, n).ok THEN CallStep(1, n, hh[n]) ELSE <<>>)])
    \o WalkT(1, "set", 900) \o WalkT(0, "eq", 900)
    \o Flat([j \in 1..Len(CallE) |-> SrchT(1, CallE[j], "set", j) \o SrchT(0, CallE[j], "eq", j)])
    \o (IF CallState(hh, Len(hh)).full THEN Put(0, 0) \o Put(1, 1) ELSE <<>>)
    \o Free(1) \o Free(0) \o Ledger

-----------------------------------------------------------------------------
(* family keep: events kept while two indexes that number their values differently grow,
   asked of either in between, against the same event written out                          *)
KeepA == << <<"l", "sl", TRUE, Free_, Free_, 0>>, <<"s", "s", TRUE, Free_, Free_, 0>>, <<"e", "ie", TRUE, Free_, Free_, 0>>, <<"n", "il", TRUE, I(0), I(9), 0>> >>
KeepE == <<"l one of ('q','y')", "l all of ('y','z')", "s = 'z' or e = 2", "e = 7 and s <> 'p'", "l none of ('p') and n one of (3,1)">>
KeepN == 15
KeepF == << << <<0, B("l"), "sl", <<B("z"), B("q"), B("p"), B("z")>> >>, <<1, B("s"), "s", B("z")>>, <<3, B("n"), "il", <<NumOf(3), NumOf(1), NumOf(3)>> >> >>,
            << <<0, B("l"), "sl", <<B("y"), B("z")>> >>, <<1, B("s"), "s", B("q")>>, <<2, B("e"), "i", NumOf(7)>>, <<3, B("n"), "il", <<>> >> >> >>
KeepX == <<"{\"l\": [\"p\", \"q\", \"z\"], \"s\": \"z\", \"n\": [1, 3]}", "{\"l\": [\"z\", \"y\"], \"e\": 7, \"s\": \"q\", \"n\": []}">>
\* every question is a group of its own
KeepQ(t, k, ops, g) == SrchT(t, KeepX[k + 1], "set", g) \o Ask(t, k, ops, "eq", g)
KeepStep(n, c) ==
    IF c <= 5 THEN Ins(0, n, KeepE[c]) ELSE IF c <= 10 THEN Ins(1, n, KeepE[c - 5])
    ELSE IF c = 15 THEN Clear(0) ELSE KeepQ((c - 11) % 2, (c - 11) \div 2, IF c = 12 THEN "xs" ELSE "s", n)
KeepCase(hh) ==
    New(0, 1, KeepA) \o New(1, 255, KeepA) \o Hold(0, 0, KeepF[1]) \o Hold(1, 1, KeepF[2])
    \o Flat([n \in 1..Len(hh) |-> KeepStep(n, hh[n])])
    \o Flat([c \in 1..4 |-> KeepQ((c - 1) % 2, (c - 1) \div 2, "sxs", 100 + c)])
    \o Free(0) \o KeepQ(1, 0, "s", 200) \o Free(1) \o Drop(0) \o Drop(1) \o Ledger

-----------------------------------------------------------------------------
(* family decl: an attribute declared by call and by line, compared                       *)
\* <<type, its word, <<bounds as text, low, high, count>>..., conditions, values>>
DeclT == << <<"i", "integer", << <<"", Free_, Free_, 0>>, <<"|0|3", I(0), I(3), 0>>, <<"|-2|2", I(-2), I(2), 0>>, <<"|1", I(1), Free_, 0>>, <<"|-5", I(-5), Free_, 0>>, <<"|-7|-1", I(-7), I(-1), 0>>, <<"|3|3", I(3), I(3), 0>>, <<"|010|0100", I(10), I(100), 0>>, <<"|-010|09", I(-10), I(9), 0>>,
                                 <<"|-4294967297|4294967298", << <<-1, 999999, 995705, 32703, 0>> >>, << <<0, 0, 4294, 967298, 0>> >>, 0>> >>, IntE, IntV>>,
            <<"f", "float", << <<"", Free_, Free_, 0>>, <<"|0|1", I(0), I(1), 0>>, <<"|-0.5|1.25", <<<<-1, 999999, 999999, 999999, 500000>>>>, <<<<0, 0, 0, 1, 250000>>>>, 0>>,
                               <<"|0.5", <<<<0, 0, 0, 0, 500000>>>>, Free_, 0>>, <<"|-2.0", I(-2), Free_, 0>>, <<"|-01.5|010", <<<<-1, 999999, 999999, 999998, 500000>>>>, I(10), 0>>,
                               <<"|-16777217.5|16777218.25", <<<<-1, 999999, 999983, 222782, 500000>>>>, <<<<0, 0, 16, 777218, 250000>>>>, 0>> >>, FltE, FltV>>,
            <<"s", "string", << <<"", Free_, Free_, 0>>, <<"|2", Free_, Free_, 2>>, <<"|1", Free_, Free_, 1>>, <<"|10", Free_, Free_, 10>>, <<"|010", Free_, Free_, 10>> >>, StrE, StrV>>,
            <<"il", "integer list", << <<"", Free_, Free_, 0>>, <<"|0|3", I(0), I(3), 0>>, <<"|-1|1", I(-1), I(1), 0>>, <<"|1", Free_, Free_, 0>>, <<"|-010|010", I(-10), I(10), 0>> >>, ILsE, ILsV>>,
            <<"sl", "string list", << <<"", Free_, Free_, 0>>, <<"|2", Free_, Free_, 2>>, <<"|1", Free_, Free_, 1>>, <<"|3", Free_, Free_, 3>> >>, SLsE, SLsV>>,
            <<"ie", "integer enum", << <<"", Free_, Free_, 0>>, <<"|2", Free_, Free_, 2>>, <<"|1", Free_, Free_, 1>>, <<"|4", Free_, Free_, 4>> >>, EnmE, EnmV>>,
            <<"b", "boolean", << <<"", Free_, Free_, 0>> >>, BooE, BooV>>,
            <<"seg", "segments", << <<"", Free_, Free_, 0>> >>, <<"segment_within(v, 1, 10)", "segment_before(v, 1, 10)", "v is null", "not segment_within(v, 2, 10)">>, <<"[]", "[[1, 995000000]]", "[[1, 5], [2, 999000000]]">> >>,
            <<"fc", "frequency", << <<"", Free_, Free_, 0>> >>, <<"within_frequency_cap('flight', 'n', 1, 0)", "not within_frequency_cap('flight', 'n', 2, 10)", "frequency_caps is null">>,
                   <<"[]", "[[\"flight\", 10, \"n\", 1, 0]]", "[[\"flight\", 10, \"n\", 2, 995000000]]">> >> >>
FlagText == <<"true", "false">>
\* one element in d, beginning at one that depends on r
Every(q, d, r) == [j \in 1..(Len(q) \div d) |-> q[(j - 1) * d + (r % d) + 1]]
DeclCase(k, und, bd, nl) ==
    LET ty == DeclT[k]  bs == ty[3][bd]  nm == IF ty[1] = "fc" THEN "frequency_caps" ELSE "v"
        line(n, tw, u, rest) == B(n \o "|" \o tw \o "|" \o FlagText[u] \o rest) \o (IF nl = 1 THEN <<10>> ELSE <<>>)
        es == Every(ty[4], (Len(ty[4]) + 15) \div 16, 2 * bd + nl)
        evs == Events(<<Fld(nm, ty[5]), <<"\"now\": 1000">>, <<"", "\"z\": true">> >>)
    IN  New(0, 2, <<<<"z", "b", und = 2, Free_, Free_, 0>>, <<nm, ty[1], und = 1, bs[2], bs[3], bs[4]>>, <<"now", "i", TRUE, Free_, Free_, 0>>>>)
        \o Mk(1, 2) \o VarText(1, line("z", "boolean", 3 - und, "")) \o VarText(1, line(nm, ty[2], und, bs[1])) \o VarText(1, line("now", "integer", 1, ""))
        \o Defs(0, 3) \o Defs(1, 3) \o Doms(0) \o Doms(1)
        \o Flat([j \in 1..Len(es) |-> InsC(0, j, es[j], Cst) \o InsC(1, j, es[j], Cst)])
        \o WalkT(0, "set", 4000) \o WalkT(1, "eq", 4000)
        \o Flat([j \in 1..Len(evs) |-> SrchT(0, evs[j], "set", j) \o SrchT(1, evs[j], "eq", j)])
        \o Free(0) \o Free(1) \o Ledger

(* family clear: histories of filling, querying and emptying                              *)
ClearN == 11
\* every call is made on index 0 and on index t, which is new since the last emptying
ClearStep(f, t, n, c) ==
    LET es == HistP[f]  ev == HistE[f]
        both(F(_)) == F(t) \o F(0) IN
    CASE c = 2 -> Flat([j \in 1..4 |-> both(LAMBDA u : Ins(u, 10 * n + j, es[j]))])
      [] c = 3 -> Flat([j \in 1..5 |-> both(LAMBDA u : Ins(u, j + 4, es[j + 4]))])
      [] c = 4 -> both(LAMBDA u : Ins(u, n, es[10]))
      [] c = 5 -> both(LAMBDA u : Build(u, 50 + u, 10 * n, es[2]) \o Put(u, 50 + u) \o Build(u, 50 + u, 10 * n + 1, es[11]) \o Put(u, 50 + u))
      [] c = 6 -> Ins(0, n, "u = 1") \o Ins(0, n, es[1] \o " and")
      [] c = 7 -> Flat([j \in 1..Len(ev) |-> SrchT(t, ev[j], "set", 100 * n + j) \o SrchT(0, ev[j], "eq", 100 * n + j)])
      [] c = 8 -> Flat([j \in 1..Len(ev) |-> IF j % 3 = 0 THEN More(0, ev[j]) \o Ex(0, ev[j]) ELSE <<>>])
      [] c = 9 -> WalkT(t, "set", 5000 + n) \o WalkT(0, "eq", 5000 + n)
      [] c = 10 -> both(LAMBDA u : Widen(u, es[12]))
      [] c = 11 -> both(LAMBDA u : Ins(u, 7, es[13]) \o Ins(u, 7, es[14]) \o Ins(u, 7, es[13]))
RECURSIVE ClearFrom(_, _, _, _)
ClearFrom(f, hh, n, t) ==
    IF n > Len(hh) THEN ClearStep(f, t, n, 9) \o ClearStep(f, t, n, 7)
                        \o Flat([j \in 1..Len(HistE[f]) |-> ExT(0, HistE[f][j], "ex", 100 * n + j)])
                        \o Flat([u \in 1..t |-> Free(u)])
    ELSE IF hh[n] = 1 THEN Clear(0) \o New(t + 1, 3, PhFree(f)) \o ClearFrom(f, hh, n + 1, t + 1)
    ELSE ClearStep(f, t, n, hh[n]) \o ClearFrom(f, hh, n + 1, t)
ClearCase(f, hh) ==
    New(0, 1, PhFree(f)) \o New(1, 2, PhFree(f)) \o ClearFrom(f, hh, 1, 1) \o Defs(0, Len(HistA[f]))
    \o Free(0) \o Ledger

(* family show: printed forms, copies and the order of conditions of two groups            *)
ShowSet(es) == es \o Map(LAMBDA x : "not (" \o x \o ")", SubSeq(es, 1, 4))
               \o <<"(" \o es[1] \o ") and (" \o es[2] \o ")", "(" \o es[1] \o ") or (" \o es[2] \o ")", "(" \o es[2] \o ") and (" \o es[1] \o ")",
                     "not ((" \o es[3] \o ") or (" \o es[1] \o ") and (" \o es[2] \o "))", "((" \o es[3] \o ") or (" \o es[1] \o ")) and (" \o es[2] \o ")">>
ShowAll(es) ==
    Flat([j \in 1..Len(es) |-> BuildC(0, j, j, es[j], Cst)]) \o Flat([j \in 1..Len(es) |-> Show(0, j)])
    \o Order(0, [j \in 1..Len(es) |-> j]) \o Flat([j \in 1..Len(es) |-> Put(0, j)]) \o Walk(0) \o Free(0) \o Ledger
ShowCase(g, k) == New(0, 255, ShareA) \o ShowAll(ShowSet(ShareG[g][1]) \o (IF g = k THEN <<>> ELSE ShareG[k][1]))
\* family copy: the copies alone in the index answer as the originals
CopyCase(g) ==
    LET es == ShowSet(ShareG[g][1])  n == Len(es)  evs == ShareG[g][2] IN
    New(0, 2, ShareA) \o New(1, 2, ShareA)
    \o Flat([j \in 1..n |-> InsC(0, j, es[j], Cst)])
    \o Flat([j \in 1..n |-> BuildC(1, j, n + j, es[j], Cst) \o Dup(1, j, n + j, j) \o Put(1, n + j)])
    \o Flat([j \in 1..Len(evs) |-> SrchT(0, evs[j], "set", j) \o SrchT(1, evs[j], "eq", j)])
    \o Flat([j \in 1..n |-> Put(1, j)]) \o Walk(1)
    \o Flat([j \in 1..Len(evs) |-> Srch(1, evs[j]) \o ExT(1, evs[j], "ex", j)])
    \o Free(0) \o Free(1) \o Ledger
ShowCuts == Flat([k \in 1..Len(Types) |-> [c \in 1..Chunks(Types[k][4], 30) |-> <<k, c>>]])
ShowLeaf(k, c) == New(0, 255, <<<<"v", Types[k][1], TRUE, Types[k][2], Types[k][3], 0>>>>) \o ShowAll(Chunk(Types[k][4], 30, c))

(* family learn: every two conditions of a type, learned in one of several ways over every
   kind of declared range                                                                 *)
LrnR == << <<Free_, Free_>>, <<I(0), I(3)>>, <<I(1), I(1)>>, <<I(1), Free_>>, <<Free_, I(1)>> >>
LrnI == Cmp("v", <<"-2", "1", "5">>) \o Equ("v", <<"0", "4">>) \o Mem("v", <<"1", "3,-1", "2,2,9">>) \o <<"v is null", "u", "w = 7">>
LrnF == Cmp("v", <<"-0.5", "1.0", "4">>) \o Equ("v", <<"0.25", "7.5">>) \o <<"v is null", "u", "w = 7">>
LrnL == Lst("v", <<"1", "3,-1", "2,2,9">>) \o Has("v", <<"-4", "1", "6">>) \o <<"v is empty", "u", "w = 7">>
LrnN == << <<0>>, <<1>>, <<2>>, <<5>> >>
LrnS == Equ("v", <<"'a'", "'b'">>) \o Mem("v", <<"'c'", "'b','a'", "'d','e','d'">>) \o <<"contains(v, 'q')", "v is null", "u", "w = 7">>
LrnM == Lst("v", <<"'a'", "'b','a'", "'d','e','d'">>) \o Has("v", <<"'a'", "'f'">>) \o <<"v is empty", "u", "w = 7">>
LrnE == Equ("v", <<"3", "-1", "70">>) \o <<"v is null", "u", "w = 7">>
LrnT == << <<"i", LrnR, LrnI>>, <<"f", LrnR, LrnF>>, <<"il", LrnR, LrnL>>, <<"s", LrnN, LrnS>>, <<"sl", LrnN, LrnM>>, <<"ie", LrnN, LrnE>> >>
LrnWays == 5
LrnDecl(t, k, r) ==
    LET num == k <= 3  bd == LrnT[k][2][r] IN
    New(t, 1, << <<"u", "b", TRUE, Free_, Free_, 0>>,
                 IF num THEN <<"v", LrnT[k][1], TRUE, bd[1], bd[2], 0>> ELSE <<"v", LrnT[k][1], TRUE, Free_, Free_, bd[1]>>,
                 <<"w", "i", TRUE, I(-5), I(5), 0>> >>)
LrnWay(t, a, b, m) ==
    CASE m = 1 -> Widen(t, a) \o Ranges(t) \o Widen(t, b)
      [] m = 2 -> Widen(t, "(" \o a \o ") and not (" \o b \o ")")
      [] m = 3 -> Build(t, 1, 1, "not (not (" \o a \o "))") \o Ranges(t) \o Put(t, 1) \o Ranges(t) \o Build(t, 1, 2, "not (" \o b \o ")") \o Put(t, 1)
      [] m = 4 -> Ins(t, 1, a) \o Ranges(t) \o Widen(t, "not ((" \o a \o ") or (" \o b \o "))") \o Ranges(t) \o Ins(t, 2, b)
      [] m = 5 -> Widen(t, b) \o Widen(t, a \o " and nosuch") \o Build(t, 1, 1, "(" \o a \o ") or nosuch = 1") \o Ranges(t) \o Clear(t) \o Widen(t, a)
LrnCase(k, r, i, m) ==
    LET es == LrnT[k][3]  js == Every(es, 2, i + m) IN
    Flat([j \in 1..Len(js) |-> LrnDecl(j, k, r) \o LrnWay(j, es[i], js[j], m) \o Ranges(j) \o Free(j)]) \o Ledger

-----------------------------------------------------------------------------
(* Alphabet: choices that may extend history hh; Full: hh is complete.                     *)
HF == DOMAIN HistP
Depth == IF "GEN_DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.GEN_DEPTH) ELSE 3
Heads == {"hist_", "grow_", "pair_"}
Head5(f) == SubSeq(f, 1, IF Len(f) < 5 THEN Len(f) ELSE 5)
Tail5(f) == SubSeq(f, 6, Len(f))
Head6(f) == SubSeq(f, 1, IF Len(f) < 6 THEN Len(f) ELSE 6)
PhaseOf(f) == SubSeq(f, 7, Len(f))
Head4(f) == SubSeq(f, 1, 4)
TokOf(f) == SubSeq(f, 5, Len(f))
ShareN(g) == Len(ShareG[g][1])

Options(f, hh) ==
    LET n == Len(hh) IN
    CASE f = "leaf" -> IF n = 0 THEN 1..Len(Types) ELSE IF n = 1 THEN {1, 3, 255} ELSE IF n = 2 THEN {0, 1} ELSE {}
      [] f = "conn" -> IF n = 0 THEN 1..Chunks(PairsN, 20) ELSE {}
      [] f = "conn3" -> IF n = 0 THEN 1..Len(PairsN) ELSE IF n = 1 THEN 1..4 ELSE {}
      [] Head5(f) \in Heads ->
           IF n = 0 THEN {1, 2} ELSE IF n <= Depth THEN {x \in 1..14 : \A j \in 2..n : hh[j] # x} ELSE {}
      [] f = "caps" -> IF n = 0 THEN 1..Len(CapKinds) ELSE IF n = 1 THEN {hh[1], (hh[1] % 10) + 1} ELSE {}
      [] f = "caps2" -> IF n = 0 THEN 1..Len(CapKinds) ELSE IF n = 1 THEN 1..(5 * Depth) ELSE {}
      [] f = "segs" -> IF n = 0 THEN 1..Chunks(SegLists, 40) ELSE {}
      [] f = "pats" -> IF n = 0 THEN 1..3 ELSE {}
      [] f = "req" -> IF n = 0 THEN 0..7 ELSE IF n = 1 THEN 1..3 ELSE {}
      [] f = "share" -> IF n = 0 THEN 1..Len(ShareG) ELSE IF n = 1 THEN 1..ShareN(hh[1]) ELSE IF n = 2 THEN 1..ShareN(hh[1]) ELSE {}
      [] f = "ident" -> IF n = 0 THEN {1, 2, 3, 4} ELSE IF n <= Depth THEN {x \in 1..Len(IdentP) : \A j \in 2..n : hh[j] # x} ELSE {}
      [] f = "report" -> IF n < Depth THEN 1..12 ELSE {}
      [] f = "decl" -> IF n = 0 THEN 1..Len(DeclT) ELSE IF n = 1 THEN {1, 2} ELSE IF n = 2 THEN 1..Len(DeclT[hh[1]][3]) ELSE IF n = 3 THEN {0, 1} ELSE {}
      [] f = "learn" -> IF n = 0 THEN 1..Len(LrnT) ELSE IF n = 1 THEN 1..Len(LrnT[hh[1]][2])
                        ELSE IF n = 2 THEN 1..Len(LrnT[hh[1]][3]) ELSE IF n = 3 THEN 1..LrnWays ELSE {}
      [] f = "show" -> IF n = 0 THEN 1..Len(ShareG) ELSE IF n = 1 THEN 1..Len(ShareG) ELSE {}
      [] f = "copy" -> IF n = 0 THEN 1..Len(ShareG) ELSE {}
      [] f = "showleaf" -> IF n = 0 THEN 1..Len(ShowCuts) ELSE {}
      [] Head6(f) = "clear_" -> IF n < Depth THEN 1..ClearN ELSE {}
      [] f = "spell" -> IF n < 4 THEN 1..Len(SpV[n + 1]) ELSE IF n = 4 THEN {1, 3} ELSE {}
      [] f = "keep" -> IF n < Depth THEN 1..KeepN ELSE {}
      [] f = "calls" -> IF n < Depth THEN {c \in 1..Len(Calls) : CallOK(Append(hh, c))} ELSE {}
      [] Head4(f) = "tok_" -> IF n < Depth THEN 1..Len(Toks[TokOf(f)]) ELSE IF n = Depth THEN 1..4 ELSE {}
      [] OTHER -> IF n = 0 THEN 1..Len(Ph) ELSE IF n <= 3 THEN {x \in 1..14 : \A j \in 2..n : hh[j] # x} ELSE {}

Steps(f, hh) ==
    CASE f = "leaf" -> LeafCase(hh[1], hh[2], hh[3] = 1)
      [] f = "conn" -> ConnCase(hh[1])
      [] f = "conn3" -> Conn3Case(hh[1], hh[2])
      [] Head5(f) = "hist_" -> HistCase(Tail5(f), hh)
      [] Head5(f) = "grow_" -> GrowCase(Tail5(f), hh)
      [] Head5(f) = "pair_" -> PairCase(Tail5(f), hh)
      [] f = "caps" -> CapCase(hh[1], hh[2])
      [] f = "caps2" -> Cap2Case(hh[1], hh[2])
      [] f = "segs" -> SegCase(hh[1])
      [] f = "pats" -> PatCase(hh[1])
      [] f = "req" -> ReqCase(hh[1], hh[2])
      [] f = "share" -> ShareCase(hh[1], hh[2], hh[3])
      [] f = "ident" -> IdentCase(hh)
      [] f = "report" -> RepCase(hh)
      [] f = "decl" -> DeclCase(hh[1], hh[2], hh[3], hh[4])
      [] f = "learn" -> LrnCase(hh[1], hh[2], hh[3], hh[4])
      [] f = "show" -> ShowCase(hh[1], hh[2])
      [] f = "copy" -> CopyCase(hh[1])
      [] f = "showleaf" -> ShowLeaf(ShowCuts[hh[1]][1], ShowCuts[hh[1]][2])
      [] Head6(f) = "clear_" -> ClearCase(PhaseOf(f), hh)
      [] f = "spell" -> SpCase(hh, hh[5])
      [] f = "keep" -> KeepCase(hh)
      [] f = "calls" -> CallCase(hh)
      [] Head4(f) = "tok_" -> TokCase(TokOf(f), hh)
      [] OTHER -> PhCase(PhaseOf(f), hh)

RECURSIVE Hash(_, _)
Hash(hh, j) == IF j > Len(hh) THEN 7 ELSE (Hash(hh, j + 1) * 31 + hh[j] * 17 + j) % 100003
GenMod == atoi(IOEnv.GEN_MOD)
GenRes == atoi(IOEnv.GEN_RES)
Chosen(hh) == Hash(hh, 1) % GenMod = GenRes

Init == fam = IOEnv.GEN_FAM /\ h = <<>>
Next == \E x \in Options(fam, h) : h' = Append(h, x) /\ UNCHANGED fam
Spec == Init /\ [][Next]_vars
Emit == Options(fam, h) = {} /\ Chosen(h) => PrintT("CASE|" \o ToJson([h |-> h, s |-> Steps(fam, h)]))
=============================================================================
