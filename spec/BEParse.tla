------------------------------- MODULE BEParse -------------------------------
(* Tokens -> abstract syntax, for expressions and for events.

   Expression precedence: not > and > or; both binary operators group to the left.
   Attribute names are case-insensitive and stored in lower case.

   Syntax nodes (records, told apart by op):
     [op: "cmp",  v, c \in {"<","<=",">",">="}, k: "int"/"flt", x]
     [op: "eq",   v, neg, k: "int"/"flt"/"str", x]
     [op: "bool", v]        [op: "lit", b]       [op: "not", a]
     [op: "and"/"or", a, b]
     [op: "vin",  v, neg, k: "int"/"str", xs]        attribute in (constants)
     [op: "cin",  v, neg, k: "int"/"str", x]         constant in attribute
     [op: "xin",  neg, vs]                           'in' without exactly one attribute
     [op: "list", v, c: "one"/"none"/"all", k, xs]
     [op: "null", v, c: "null"/"notnull"/"empty"]
     [op: "freq", ty, ns, val, len]
     [op: "seg",  v, c: "within"/"before", dflt, id, secs]
     [op: "geo",  lat, lon, rad]
     [op: "pat",  v, c: "contains"/"starts"/"ends", x]                          *)
EXTENDS BELex


\* parse results: <<ok, value, next position>>
Fail == <<FALSE, <<>>, 0>>

Kind(ts, p) == IF p <= Len(ts) THEN ts[p][1] ELSE "eof"

PInt(ts, p) ==
    IF Kind(ts, p) = "int" THEN <<TRUE, ts[p][2], p + 1>>
    ELSE IF Kind(ts, p) = "-" /\ Kind(ts, p + 1) = "int" THEN <<TRUE, NumNeg(ts[p + 1][2]), p + 2>>
    ELSE Fail
PFlt(ts, p) ==
    IF Kind(ts, p) = "flt" THEN <<TRUE, ts[p][2], p + 1>>
    ELSE IF Kind(ts, p) = "-" /\ Kind(ts, p + 1) = "flt" THEN <<TRUE, NumNeg(ts[p + 1][2]), p + 2>>
    ELSE Fail
PStr(ts, p) == IF Kind(ts, p) = "str" THEN <<TRUE, ts[p][2], p + 1>> ELSE Fail
PId(ts, p)  == IF Kind(ts, p) = "id" THEN <<TRUE, Lower(ts[p][2]), p + 1>> ELSE Fail

\* constant: value is <<k, x>>
PConst(ts, p) ==
    LET i == PInt(ts, p) IN
    IF i[1] THEN <<TRUE, <<"int", i[2]>>, i[3]>>
    ELSE LET f == PFlt(ts, p) IN
         IF f[1] THEN <<TRUE, <<"flt", f[2]>>, f[3]>>
         ELSE LET s == PStr(ts, p) IN
              IF s[1] THEN <<TRUE, <<"str", s[2]>>, s[3]>> ELSE Fail

\* where the run of tokens of the given kinds that starts at p ends
RunEnd(ts, p, kinds) ==
    LET e == SelectInSeq(SubSeq(ts, p, Len(ts)), LAMBDA t : t[1] \notin kinds) IN
    IF e = 0 THEN Len(ts) ELSE p + e - 2

(* One or more items with commas between them, made of tokens of the given kinds;
   acc = <<ok, values, next position, more to come>>.                                *)
Separated(Item(_, _), ts, p, kinds) ==
    LET r == FoldLeft(LAMBDA acc, q :
                 IF ~acc[4] \/ q < acc[3] THEN acc
                 ELSE LET i == Item(ts, q) IN
                      IF ~i[1] THEN <<FALSE, <<>>, 0, FALSE>>
                      ELSE LET more == Kind(ts, i[3]) = "," IN
                           <<TRUE, Append(acc[2], i[2]), IF more THEN i[3] + 1 ELSE i[3], more>>,
               <<FALSE, <<>>, p, TRUE>>, [j \in 1..(RunEnd(ts, p, kinds) - p + 1) |-> p + j - 1])
    IN  IF r[1] /\ ~r[4] THEN <<TRUE, r[2], r[3]>> ELSE Fail

PIntLoop(ts, p) == Separated(PInt, ts, p, {"int", "-", ","})
PStrLoop(ts, p) == Separated(PStr, ts, p, {"str", ","})

\* parenthesised list: value is <<k, xs>>
PList(ts, p) ==
    IF Kind(ts, p) # "(" THEN Fail
    ELSE LET r == IF Kind(ts, p + 1) = "str" THEN PStrLoop(ts, p + 1) ELSE PIntLoop(ts, p + 1)
             k == IF Kind(ts, p + 1) = "str" THEN "str" ELSE "int"
         IN  IF r[1] /\ Kind(ts, r[3]) = ")" THEN <<TRUE, <<k, r[2]>>, r[3] + 1>> ELSE Fail

CmpOps == {"<", "<=", ">", ">="}
Flip(c) == CASE c = "<" -> ">" [] c = "<=" -> ">=" [] c = ">" -> "<" [] c = ">=" -> "<="

\* leaf starting with an attribute name
PFromId(ts, p) ==
    LET v == Lower(ts[p][2])
        o == Kind(ts, p + 1)
    IN
    CASE o \in {"isnull", "isnotnull", "isempty"} ->
           <<TRUE, [op |-> "null", v |-> v,
                    c |-> CASE o = "isnull" -> "null" [] o = "isnotnull" -> "notnull" [] OTHER -> "empty"],
             p + 2>>
      [] o \in CmpOps ->
           LET x == PConst(ts, p + 2) IN
           IF x[1] /\ x[2][1] # "str"
           THEN <<TRUE, [op |-> "cmp", v |-> v, c |-> o, k |-> x[2][1], x |-> x[2][2]], x[3]>>
           ELSE Fail
      [] o \in {"=", "<>"} ->
           LET x == PConst(ts, p + 2) IN
           IF x[1] THEN <<TRUE, [op |-> "eq", v |-> v, neg |-> (o = "<>"), k |-> x[2][1], x |-> x[2][2]], x[3]>>
           ELSE Fail
      [] o \in {"in", "notin"} ->
           IF Kind(ts, p + 2) = "id"
           THEN <<TRUE, [op |-> "xin", neg |-> (o = "notin"), vs |-> <<v, Lower(ts[p + 2][2])>>], p + 3>>
           ELSE LET l == PList(ts, p + 2) IN
                IF l[1] THEN <<TRUE, [op |-> "vin", v |-> v, neg |-> (o = "notin"),
                                       k |-> l[2][1], xs |-> l[2][2]], l[3]>>
                ELSE Fail
      [] o \in {"oneof", "noneof", "allof"} ->
           LET l == PList(ts, p + 2) IN
           IF l[1] THEN <<TRUE, [op |-> "list", v |-> v,
                                  c |-> CASE o = "oneof" -> "one" [] o = "noneof" -> "none" [] OTHER -> "all",
                                  k |-> l[2][1], xs |-> l[2][2]], l[3]>>
           ELSE Fail
      [] OTHER -> <<TRUE, [op |-> "bool", v |-> v], p + 1>>

\* leaf starting with a constant
PFromConst(ts, p) ==
    LET x == PConst(ts, p) IN
    IF ~x[1] THEN Fail
    ELSE LET q == x[3]
             o == Kind(ts, q)
             k == x[2][1]
         IN
         CASE o \in CmpOps /\ k # "str" ->
                IF Kind(ts, q + 1) = "id"
                THEN <<TRUE, [op |-> "cmp", v |-> Lower(ts[q + 1][2]), c |-> Flip(o), k |-> k, x |-> x[2][2]], q + 2>>
                ELSE Fail
           [] o \in {"=", "<>"} ->
                IF Kind(ts, q + 1) = "id"
                THEN <<TRUE, [op |-> "eq", v |-> Lower(ts[q + 1][2]), neg |-> (o = "<>"), k |-> k, x |-> x[2][2]], q + 2>>
                ELSE Fail
           [] o \in {"in", "notin"} /\ k # "flt" ->
                IF Kind(ts, q + 1) = "id"
                THEN <<TRUE, [op |-> "cin", v |-> Lower(ts[q + 1][2]), neg |-> (o = "notin"), k |-> k, x |-> x[2][2]], q + 2>>
                ELSE LET l == PList(ts, q + 1) IN
                     IF l[1] THEN <<TRUE, [op |-> "xin", neg |-> (o = "notin"), vs |-> <<>>], l[3]>> ELSE Fail
           [] OTHER -> Fail

\* "(" a1 "," a2 ... ")" where each argument has the given kind; value is the tuple of arguments
RECURSIVE PArgs(_, _, _)
PArgs(ts, p, kinds) ==
    LET k == Head(kinds)
        a == CASE k = "int" -> PInt(ts, p) [] k = "flt" -> PFlt(ts, p)
               [] k = "str" -> PStr(ts, p) [] k = "id" -> PId(ts, p)
    IN  IF ~a[1] THEN Fail
        ELSE IF Len(kinds) = 1 THEN IF Kind(ts, a[3]) = ")" THEN <<TRUE, <<a[2]>>, a[3] + 1>> ELSE Fail
        ELSE IF Kind(ts, a[3]) # "," THEN Fail
        ELSE LET r == PArgs(ts, a[3] + 1, Tail(kinds)) IN
             IF r[1] THEN <<TRUE, <<a[2]>> \o r[2], r[3]>> ELSE Fail
PCall(ts, p, kinds) == IF Kind(ts, p) = "(" THEN PArgs(ts, p + 1, kinds) ELSE Fail

PSpecial(ts, p) ==
    LET o == Kind(ts, p) IN
    CASE o = "freq" ->
           LET a == PCall(ts, p + 1, <<"str", "str", "int", "int">>) IN
           IF a[1] THEN <<TRUE, [op |-> "freq", ty |-> a[2][1], ns |-> a[2][2], val |-> a[2][3], len |-> a[2][4]], a[3]>>
           ELSE Fail
      [] o \in {"segw", "segb"} ->
           LET c == IF o = "segw" THEN "within" ELSE "before"
               a == PCall(ts, p + 1, <<"int", "int">>)
               b == PCall(ts, p + 1, <<"id", "int", "int">>)
           IN  IF a[1] THEN <<TRUE, [op |-> "seg", v |-> NmSegments, c |-> c, dflt |-> TRUE, id |-> a[2][1], secs |-> a[2][2]], a[3]>>
               ELSE IF b[1] THEN <<TRUE, [op |-> "seg", v |-> b[2][1], c |-> c, dflt |-> FALSE, id |-> b[2][2], secs |-> b[2][3]], b[3]>>
               ELSE Fail
      [] o = "geo" ->
           LET a == PCall(ts, p + 1, <<"int", "int", "int">>)
               b == PCall(ts, p + 1, <<"flt", "flt", "flt">>)
               r == IF a[1] THEN a ELSE b
           IN  IF r[1] THEN <<TRUE, [op |-> "geo", lat |-> r[2][1], lon |-> r[2][2], rad |-> r[2][3]], r[3]>> ELSE Fail
      [] OTHER ->
           LET a == PCall(ts, p + 1, <<"id", "str">>) IN
           IF a[1] THEN <<TRUE, [op |-> "pat", v |-> a[2][1], c |-> o, x |-> a[2][2]], a[3]>> ELSE Fail

RECURSIVE POr(_, _), POrRest(_, _), PAnd(_, _), PAndRest(_, _), PNot(_, _)
PNot(ts, p) ==
    LET k == Kind(ts, p) IN
    CASE k = "not" -> LET r == PNot(ts, p + 1) IN
                      IF r[1] THEN <<TRUE, [op |-> "not", a |-> r[2]], r[3]>> ELSE Fail
      [] k = "(" -> LET r == POr(ts, p + 1) IN
                    IF r[1] /\ Kind(ts, r[3]) = ")" THEN <<TRUE, r[2], r[3] + 1>> ELSE Fail
      [] k = "true"  -> <<TRUE, [op |-> "lit", b |-> TRUE], p + 1>>
      [] k = "false" -> <<TRUE, [op |-> "lit", b |-> FALSE], p + 1>>
      [] k = "id" -> PFromId(ts, p)
      [] k \in {"int", "flt", "str", "-"} -> PFromConst(ts, p)
      [] k \in {"freq", "segw", "segb", "geo", "contains", "starts", "ends"} -> PSpecial(ts, p)
      [] OTHER -> Fail
PAndRest(ts, l) ==
    IF l[1] /\ Kind(ts, l[3]) = "and"
    THEN LET r == PNot(ts, l[3] + 1) IN
         IF r[1] THEN PAndRest(ts, <<TRUE, [op |-> "and", a |-> l[2], b |-> r[2]], r[3]>>) ELSE Fail
    ELSE l
PAnd(ts, p) == PAndRest(ts, PNot(ts, p))
POrRest(ts, l) ==
    IF l[1] /\ Kind(ts, l[3]) = "or"
    THEN LET r == PAnd(ts, l[3] + 1) IN
         IF r[1] THEN POrRest(ts, <<TRUE, [op |-> "or", a |-> l[2], b |-> r[2]], r[3]>>) ELSE Fail
    ELSE l
POr(ts, p) == POrRest(ts, PAnd(ts, p))

\* whole text: [ok, ast]
ParseExpr(s) ==
    LET ts == LexExpr(s)
        r  == POr(ts, 1)
    IN  IF r[1] /\ r[3] = Len(ts) + 1 THEN [ok |-> TRUE, ast |-> r[2]]
        ELSE [ok |-> FALSE, ast |-> <<>>]

-----------------------------------------------------------------------------
(* Events: { "name": value, ... }. The result is a sequence of <<name, kind, value>>
   with kind "b" "i" "f" "s" "il" "sl" "e" (empty list) "seg" "fc"; null adds nothing. *)

\* fails on anything that is not the given token
PTok(ts, p, k) == IF Kind(ts, p) = k THEN <<TRUE, <<>>, p + 1>> ELSE Fail

\* a sequence of items: each either a token kind in quotes or "INT"/"STR"; collects values
RECURSIVE PSeq(_, _, _)
PSeq(ts, p, items) ==
    IF items = <<>> THEN <<TRUE, <<>>, p>>
    ELSE LET h == Head(items)
             a == CASE h = "INT" -> PInt(ts, p) [] h = "STR" -> PStr(ts, p) [] OTHER -> PTok(ts, p, h)
             keep == h \in {"INT", "STR"}
         IN  IF ~a[1] THEN Fail
             ELSE LET r == PSeq(ts, a[3], Tail(items)) IN
                  IF r[1] THEN <<TRUE, (IF keep THEN <<a[2]>> ELSE <<>>) \o r[2], r[3]>> ELSE Fail

SegItem == <<"[", "INT", ",", "INT", "]">>
CapFlat == <<"[", "STR", ",", "INT", ",", "STR", ",", "INT", ",", "INT", "]">>
CapNest == <<"[", "[", "STR", ",", "INT", ",", "STR", "]", ",", "INT", ",", "INT", "]">>

\* frequency entry: <<type, id, namespace, count, timestamp>>
PCap(ts, p) == IF Kind(ts, p + 1) = "[" THEN PSeq(ts, p, CapNest) ELSE PSeq(ts, p, CapFlat)

PSeg(ts, p) == PSeq(ts, p, SegItem)
Items == {"[", "]", "int", "-", "str", ","}
PSegs(ts, p) == Separated(PSeg, ts, p, Items)
PCaps(ts, p) == Separated(PCap, ts, p, Items)

\* value: <<kind, value>>
PValue(ts, p) ==
    LET k == Kind(ts, p)
        k2 == Kind(ts, p + 1)
        closing(r, kd) == IF r[1] /\ Kind(ts, r[3]) = "]" THEN <<TRUE, <<kd, r[2]>>, r[3] + 1>> ELSE Fail
    IN
    CASE k = "true"  -> <<TRUE, <<"b", TRUE>>, p + 1>>
      [] k = "false" -> <<TRUE, <<"b", FALSE>>, p + 1>>
      [] k = "null"  -> <<TRUE, <<"null", <<>>>>, p + 1>>
      [] k = "str"   -> <<TRUE, <<"s", ts[p][2]>>, p + 1>>
      [] k \in {"int", "flt", "-"} ->
           LET i == PInt(ts, p)  f == PFlt(ts, p) IN
           IF i[1] THEN <<TRUE, <<"i", i[2]>>, i[3]>>
           ELSE IF f[1] THEN <<TRUE, <<"f", f[2]>>, f[3]>> ELSE Fail
      [] k = "[" ->
           CASE k2 = "]" -> <<TRUE, <<"e", <<>>>>, p + 2>>
             [] k2 = "str" -> closing(PStrLoop(ts, p + 1), "sl")
             [] k2 = "[" -> IF Kind(ts, p + 2) \in {"str", "["} THEN closing(PCaps(ts, p + 1), "fc")
                            ELSE closing(PSegs(ts, p + 1), "seg")
             [] OTHER -> closing(PIntLoop(ts, p + 1), "il")
      [] OTHER -> Fail

\* name : value
PField(ts, p) ==
    IF Kind(ts, p) # "str" \/ Kind(ts, p + 1) # ":" THEN Fail
    ELSE LET v == PValue(ts, p + 2) IN
         IF ~v[1] THEN Fail ELSE <<TRUE, <<ts[p][2], v[2][1], v[2][2]>>, v[3]>>
PFields(ts, p) ==
    LET r == Separated(PField, ts, p, Items \cup {":", "flt", "true", "false", "null"}) IN
    IF r[1] THEN <<TRUE, SelectSeq(r[2], LAMBDA f : f[2] # "null"), r[3]>> ELSE Fail

ParseEvent(s) ==
    LET ts == LexEvent(s)
        r  == IF Kind(ts, 1) # "{" THEN Fail
              ELSE IF Kind(ts, 2) = "}" THEN <<TRUE, <<>>, 2>> ELSE PFields(ts, 2)
    IN  IF r[1] /\ Kind(ts, r[3]) = "}" /\ r[3] = Len(ts) THEN [ok |-> TRUE, ev |-> r[2]]
        ELSE [ok |-> FALSE, ev |-> <<>>]
=============================================================================
