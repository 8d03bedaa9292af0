-------------------------------- MODULE BESem --------------------------------
(* Meaning of expressions, events and registrations.

   An attribute is referred to by its position (1-based) in the list of declared
   attributes, 0 standing for "not declared". A configuration is
       cfg : sequence of [nm, ty, und, unb, lo, hi, cap]
       ix  : name -> position
   with ty one of "b" "i" "f" "s" "il" "sl" "ie" "seg" "fc"; und = may be left
   undefined by an event; cap = declared number of distinct values unless unb.      *)
EXTENDS BEParse, BEGeo, FiniteSets, FiniteSetsExt

Pos(ix, nm) == IF nm \in DOMAIN ix THEN ix[nm] ELSE 0

-----------------------------------------------------------------------------
(* Resolved expressions: names replaced by positions, integer constants of fractional
   attributes are plain numbers already, constant lists are sets, and the cheaper
   operand of and/or stands first. Two sub-expressions are "the same condition" iff
   their resolved forms are equal.                                                  *)

RECURSIVE Cost(_)
Cost(n) ==
    CASE n.op \in {"null", "lit", "geo"} -> 0
      [] n.op \in {"cmp", "eq", "bool"} -> 1
      [] n.op \in {"vin", "cin", "xin"} -> 5
      [] n.op = "list" -> 10
      [] n.op \in {"freq", "seg", "pat"} -> 20
      [] n.op = "not" -> Cost(n.a)
      [] n.op \in {"and", "or"} -> Cost(n.a) + Cost(n.b)

SeqSet(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Resolve(_, _)
Resolve(n, ix) ==
    CASE n.op \in {"cmp", "eq", "bool", "cin", "null", "pat"} -> [n EXCEPT !.v = Pos(ix, n.v)]
      [] n.op \in {"vin", "list"} -> [n EXCEPT !.v = Pos(ix, n.v), !.xs = SeqSet(n.xs)]
      [] n.op = "seg"  -> [op |-> "seg", v |-> Pos(ix, n.v), c |-> n.c, id |-> n.id, secs |-> n.secs,
                           dflt |-> n.dflt, now |-> Pos(ix, NmNow)]
      [] n.op = "freq" -> [op |-> "freq", v |-> Pos(ix, NmCaps), now |-> Pos(ix, NmNow),
                           ty |-> n.ty, ns |-> n.ns, val |-> n.val, len |-> n.len, cid |-> NumZero]
      [] n.op = "geo"  -> [op |-> "geo", v |-> Pos(ix, NmLat), v2 |-> Pos(ix, NmLon),
                           lat |-> n.lat, lon |-> n.lon, rad |-> n.rad]
      [] n.op \in {"lit", "xin"} -> n
      [] n.op = "not" -> [op |-> "not", a |-> Resolve(n.a, ix)]
      [] n.op \in {"and", "or"} ->
           LET a == Resolve(n.a, ix)  b == Resolve(n.b, ix) IN
           IF Cost(b) < Cost(a) THEN [op |-> n.op, a |-> b, b |-> a] ELSE [op |-> n.op, a |-> a, b |-> b]

\* positions an expression depends on (0 = undeclared)
RECURSIVE VarsOf(_)
VarsOf(n) ==
    CASE n.op \in {"cmp", "eq", "bool", "vin", "cin", "list", "null", "pat"} -> {n.v}
      [] n.op \in {"seg", "freq"} -> {n.v, n.now}
      [] n.op = "geo" -> {n.v, n.v2}
      [] n.op = "lit" -> {}
      [] n.op = "xin" -> {0}
      [] n.op = "not" -> VarsOf(n.a)
      [] n.op \in {"and", "or"} -> VarsOf(n.a) \cup VarsOf(n.b)

AllDeclared(n) == 0 \notin VarsOf(n)

\* <<attribute, value>> of every string or enumerated value an expression mentions
RECURSIVE Mentions(_, _)
Mentions(n, cfg) ==
    CASE n.op = "eq" -> IF cfg[n.v].ty \in {"s", "ie"} THEN {<<n.v, n.x>>} ELSE {}
      [] n.op = "cin" -> IF cfg[n.v].ty = "sl" THEN {<<n.v, n.x>>} ELSE {}
      [] n.op \in {"vin", "list"} -> IF cfg[n.v].ty \in {"s", "sl", "ie"} THEN {<<n.v, x>> : x \in n.xs} ELSE {}
      [] n.op = "not" -> Mentions(n.a, cfg)
      [] n.op \in {"and", "or"} -> Mentions(n.a, cfg) \cup Mentions(n.b, cfg)
      [] OTHER -> {}

\* the values a registration would add stay within the declared number of distinct values
CapacityOK(ms, cfg, known) ==
    \A v \in {m[1] : m \in ms} :
        \/ cfg[v].unb
        \/ LET new == {m \in ms : m[1] = v} \ known IN
           \/ new = {}
           \/ Cardinality(new) + Cardinality({m \in known : m[1] = v}) <= cfg[v].cap

\* campaign-side id: kind -> name of the constant
FreqConst(ty) ==
    CASE ty \in {KdAdvertiser, KdAdvertiserIp} -> CnAdvertiser
      [] ty \in {KdCampaign, KdCampaignIp} -> CnCampaign
      [] ty \in {KdCampaignGroup, KdCampaignGroupIp} -> CnCampaignGroup
      [] ty \in {KdProduct, KdProductIp} -> CnProduct
      [] ty \in {KdFlight, KdFlightIp} -> CnFlight
      [] OTHER -> <<>>

\* cs: sequence of [nm, x]; the first constant of a name counts
RECURSIVE ConstOf(_, _)
ConstOf(cs, nm) == IF cs = <<>> THEN <<>>
                   ELSE IF cs[1].nm = nm THEN <<cs[1].x>> ELSE ConstOf(Tail(cs), nm)

RECURSIVE ConstsOK(_, _)
ConstsOK(n, cs) ==
    CASE n.op = "freq" -> FreqConst(n.ty) # <<>> /\ ConstOf(cs, FreqConst(n.ty)) # <<>>
      [] n.op = "not" -> ConstsOK(n.a, cs)
      [] n.op \in {"and", "or"} -> ConstsOK(n.a, cs) /\ ConstsOK(n.b, cs)
      [] OTHER -> TRUE

RECURSIVE BindConsts(_, _)
BindConsts(n, cs) ==
    CASE n.op = "freq" -> [n EXCEPT !.cid = ConstOf(cs, FreqConst(n.ty))[1]]
      [] n.op = "not" -> [n EXCEPT !.a = BindConsts(n.a, cs)]
      [] n.op \in {"and", "or"} -> [n EXCEPT !.a = BindConsts(n.a, cs), !.b = BindConsts(n.b, cs)]
      [] OTHER -> n

\* operators fit the attribute types (demanded when an expression is built first)
RECURSIVE WellTyped(_, _)
WellTyped(n, cfg) ==
    CASE n.op = "null" -> IF n.c = "empty" THEN cfg[n.v].ty \in {"il", "sl"} ELSE cfg[n.v].und
      [] n.op = "cmp"  -> (cfg[n.v].ty = "i" /\ n.k = "int") \/ cfg[n.v].ty = "f"
      [] n.op = "eq"   -> \/ cfg[n.v].ty = "s" /\ n.k = "str"
                          \/ cfg[n.v].ty = "f" /\ n.k \in {"int", "flt"}
                          \/ cfg[n.v].ty \in {"i", "ie"} /\ n.k = "int"
      [] n.op = "bool" -> cfg[n.v].ty = "b"
      [] n.op = "lit"  -> TRUE
      [] n.op = "vin"  -> (cfg[n.v].ty = "s" /\ n.k = "str") \/ (cfg[n.v].ty = "i" /\ n.k = "int")
      [] n.op \in {"cin", "list"} ->
                          (cfg[n.v].ty = "sl" /\ n.k = "str") \/ (cfg[n.v].ty = "il" /\ n.k = "int")
      [] n.op = "xin"  -> FALSE
      [] n.op = "freq" -> FreqConst(n.ty) # <<>> /\ cfg[n.v].ty = "fc" /\ cfg[n.now].ty = "i"
      [] n.op = "seg"  -> cfg[n.v].ty = "seg" /\ cfg[n.now].ty = "i"
      [] n.op = "geo"  -> cfg[n.v].ty = "f" /\ cfg[n.v2].ty = "f"
      [] n.op = "pat"  -> cfg[n.v].ty = "s"
      [] n.op = "not"  -> WellTyped(n.a, cfg)
      [] n.op \in {"and", "or"} -> WellTyped(n.a, cfg) /\ WellTyped(n.b, cfg)

\* numeric kinds do not distinguish conditions on a fractional attribute
RECURSIVE Unify(_, _)
Unify(n, cfg) ==
    CASE n.op \in {"cmp", "eq"} -> IF cfg[n.v].ty = "f" THEN [n EXCEPT !.k = "flt"] ELSE n
      [] n.op = "not" -> [n EXCEPT !.a = Unify(n.a, cfg)]
      [] n.op \in {"and", "or"} -> [n EXCEPT !.a = Unify(n.a, cfg), !.b = Unify(n.b, cfg)]
      [] OTHER -> n

-----------------------------------------------------------------------------
(* Events. An environment gives every position <<>> (undefined) or <<value>>:
   boolean, number, bytes, sequence of elements, sequence of <<id, timestamp>>, or
   sequence of cap entries <<kind, id, namespace, count, timestamp, timed>>.         *)

FieldPos(ix, f) == Pos(ix, Lower(f[1]))

FieldValue(f) ==
    IF f[2] = "fc" THEN [i \in 1..Len(f[3]) |->
                            IF Len(f[3][i]) = 6 THEN f[3][i] ELSE f[3][i] \o <<TRUE>>]
    ELSE f[3]

\* fields: sequence of <<name, kind, value>>, every name declared
EnvOf(fields, cfg, ix) ==
    LET p == [j \in 1..Len(fields) |-> FieldPos(ix, fields[j])]
        src == [i \in {p[j] : j \in 1..Len(fields)} |-> CHOOSE j \in 1..Len(fields) : p[j] = i]
    IN  [i \in 1..Len(cfg) |-> IF i \in DOMAIN src THEN <<FieldValue(fields[src[i]])>> ELSE <<>>]

EventOK(fields, ix) == \A j \in 1..Len(fields) : FieldPos(ix, fields[j]) # 0

Missing(env, cfg) == \E i \in 1..Len(cfg) : ~cfg[i].und /\ env[i] = <<>>

-----------------------------------------------------------------------------
(* Evaluation.                                                                      *)

IsSub(t, x, p) == p + Len(x) - 1 <= Len(t) /\ \A i \in 1..Len(x) : t[p + i - 1] = x[i]
Holds(t, x) == \E p \in 1..(Len(t) + 1) : IsSub(t, x, p)
StartsWith(t, x) == IsSub(t, x, 1)
EndsWith(t, x) == Len(x) <= Len(t) /\ IsSub(t, x, Len(t) - Len(x) + 1)

\* first cap entry of the kind, id and namespace decides
CapPass(caps, n, now) ==
    LET j == SelectInSeq(caps, LAMBDA e : e[1] = n.ty /\ e[2] = n.cid /\ e[3] = n.ns) IN
    IF j = 0 THEN TRUE
    ELSE LET e == caps[j] IN
         \/ NumLT(e[4], n.val)
         \/ /\ NumLT(NumZero, n.len)
            /\ ~e[6] \/ NumLT(n.len, NumSub(now, NumDivMillion(e[5])))

\* segment list ordered by id: first entry of that id
SegPass(segs, n, now) ==
    LET hits == {j \in 1..Len(segs) : segs[j][1] = n.id} IN
    /\ hits # {}
    /\ LET j == CHOOSE j \in hits : \A k \in hits : j <= k
           old == NumLT(NumDivMillion(segs[j][2]), NumSub(now, n.secs))
       IN  IF n.c = "within" THEN ~old ELSE old

CmpTrue(c, y, x) == CASE c = "<" -> NumLT(y, x) [] c = "<=" -> NumLE(y, x)
                      [] c = ">" -> NumLT(x, y) [] c = ">=" -> NumLE(x, y)

\* value of a condition (not a connective) whose attributes are all defined
LeafTrue(n, env) ==
    LET y == env[n.v][1] IN
    CASE n.op = "cmp"  -> CmpTrue(n.c, y, n.x)
      [] n.op = "eq"   -> (y = n.x) # n.neg
      [] n.op = "bool" -> y
      [] n.op = "vin"  -> (y \in n.xs) # n.neg
      [] n.op = "cin"  -> (n.x \in SeqSet(y)) # n.neg
      [] n.op = "list" -> LET s == SeqSet(y) IN
                          (CASE n.c = "one"  -> s \cap n.xs # {}
                             [] n.c = "none" -> s \cap n.xs = {}
                             [] n.c = "all"  -> n.xs \subseteq s)
      [] n.op = "null" -> IF n.c = "empty" THEN Len(y) = 0 ELSE n.c = "notnull"
      [] n.op = "pat"  -> (CASE n.c = "contains" -> Holds(y, n.x)
                             [] n.c = "starts" -> StartsWith(y, n.x)
                             [] n.c = "ends" -> EndsWith(y, n.x))
      [] n.op = "freq" -> CapPass(y, n, env[n.now][1])
      [] n.op = "seg"  -> SegPass(y, n, env[n.now][1])

GeoOf(n, env) == Within(n.lat, n.lon, env[n.v][1], env[n.v2][1], n.rad)

\* a condition on an undefined attribute is false, only "is null" is true
LeafEval(n, env) ==
    IF \E v \in VarsOf(n) : env[v] = <<>> THEN n.op = "null" /\ n.c = "null"
    ELSE IF n.op = "geo" THEN GeoOf(n, env) = "yes"
    ELSE LeafTrue(n, env)

RECURSIVE Eval(_, _)
Eval(n, env) ==
    CASE n.op = "lit" -> n.b
      [] n.op = "not" -> ~Eval(n.a, env)
      [] n.op = "and" -> Eval(n.a, env) /\ Eval(n.b, env)
      [] n.op = "or"  -> Eval(n.a, env) \/ Eval(n.b, env)
      [] OTHER -> LeafEval(n, env)

\* the event is too close to the boundary of a radius condition to be judged
RECURSIVE Unsure(_, _)
Unsure(n, env) ==
    CASE n.op = "geo" -> env[n.v] # <<>> /\ env[n.v2] # <<>> /\ GeoOf(n, env) = "open"
      [] n.op = "not" -> Unsure(n.a, env)
      [] n.op \in {"and", "or"} -> Unsure(n.a, env) \/ Unsure(n.b, env)
      [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Deciding from undefined attributes alone. For one undefined attribute v an
   expression is "T" (true whatever the others are), "F", or "U". An expression is
   decided early if some optional undefined attribute decides it.                    *)
RECURSIVE Decide(_, _)
Decide(n, v) ==
    CASE n.op = "lit" -> "U"
      [] n.op = "not" -> LET a == Decide(n.a, v) IN
                         IF a = "T" THEN "F" ELSE IF a = "F" THEN "T" ELSE "U"
      [] n.op = "and" -> LET a == Decide(n.a, v)  b == Decide(n.b, v) IN
                         IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "T" /\ b = "T" THEN "T" ELSE "U"
      [] n.op = "or"  -> LET a == Decide(n.a, v)  b == Decide(n.b, v) IN
                         IF a = "T" \/ b = "T" THEN "T" ELSE IF a = "F" /\ b = "F" THEN "F" ELSE "U"
      [] OTHER -> IF v \notin VarsOf(n) THEN "U"
                  ELSE IF n.op = "null" /\ n.c = "null" THEN "T" ELSE "F"

Shorted(n, env, cfg) == \E v \in VarsOf(n) : cfg[v].und /\ env[v] = <<>> /\ Decide(n, v) # "U"

-----------------------------------------------------------------------------
(* Sharing. nodes(n) lists every sub-expression occurrence of n.                     *)
RECURSIVE Nodes(_)
Nodes(n) == CASE n.op = "not" -> Append(Nodes(n.a), n)
              [] n.op \in {"and", "or"} -> Append(Nodes(n.a) \o Nodes(n.b), n)
              [] OTHER -> <<n>>

\* seen: condition -> "one" / "many"
See(seen, n) == IF n \in seen.one THEN [one |-> seen.one \ {n}, many |-> seen.many \cup {n}]
                ELSE IF n \in seen.many THEN seen
                ELSE [one |-> seen.one \cup {n}, many |-> seen.many]
SeeAll(seen, ns) == FoldLeft(See, seen, ns)

\* Evaluation with a result cache for the conditions in "many":
\* <<value, conditions cached so far, hits so far>>
RECURSIVE CachedEval(_, _, _, _, _)
CachedEval(n, env, many, cache, hits) ==
    IF n \in cache THEN <<Eval(n, env), cache, hits + 1>>
    ELSE LET r == CASE n.op = "not" ->
                         LET a == CachedEval(n.a, env, many, cache, hits) IN <<~a[1], a[2], a[3]>>
                    [] n.op \in {"and", "or"} ->
                         LET a == CachedEval(n.a, env, many, cache, hits) IN
                         IF a[1] = (n.op = "or") THEN a
                         ELSE CachedEval(n.b, env, many, a[2], a[3])
                    [] OTHER -> <<Eval(n, env), cache, hits>>
         IN  IF n \in many THEN <<r[1], r[2] \cup {n}, r[3]>> ELSE r

-----------------------------------------------------------------------------
(* Abstract evaluation: can the expression be true (FALSE) for some event whose
   attribute v is defined and lies wholly on one side of p?
   side "lt": every value (element) of v is below p; "gt": above p.
   rk orders the values of v: [num |-> TRUE] for numbers (integral if int), else
   [num |-> FALSE, tab |-> value -> number], values outside tab being unordered.      *)
RankOf(rk, x) == IF rk.num THEN <<x>> ELSE IF x \in DOMAIN rk.tab THEN <<rk.tab[x]>> ELSE <<>>
InSide(rk, side, p, x) == LET r == RankOf(rk, x) IN
                          r = <<>> \/ (IF side = "lt" THEN NumLT(r[1], p) ELSE NumLT(p, r[1]))

MayCmp(c, int, side, p, x) ==
    IF c \in {">", ">="}
    THEN side = "gt" \/ NumLT(IF c = ">" /\ int THEN NumAdd(x, NumOne) ELSE x, p)
    ELSE side = "lt" \/ NumLT(p, IF c = "<" /\ int THEN NumSub(x, NumOne) ELSE x)
NegCmp(c) == CASE c = "<" -> ">=" [] c = "<=" -> ">" [] c = ">" -> "<=" [] c = ">=" -> "<"

\* <<may be true, may be false>> of a condition on v
LeafMay(n, side, p, rk) ==
    CASE n.op = "cmp" -> <<MayCmp(n.c, rk.int, side, p, n.x), MayCmp(NegCmp(n.c), rk.int, side, p, n.x)>>
      [] n.op = "bool" -> <<side = "gt", side = "lt">>
      [] n.op = "eq"  -> IF n.neg THEN <<TRUE, InSide(rk, side, p, n.x)>> ELSE <<InSide(rk, side, p, n.x), TRUE>>
      [] n.op = "vin" -> LET some == \E x \in n.xs : InSide(rk, side, p, x) IN
                         IF n.neg THEN <<TRUE, some>> ELSE <<some, TRUE>>
      [] n.op = "cin" -> IF n.neg THEN <<TRUE, InSide(rk, side, p, n.x)>> ELSE <<InSide(rk, side, p, n.x), TRUE>>
      [] n.op = "list" -> (CASE n.c = "one"  -> <<\E x \in n.xs : InSide(rk, side, p, x), TRUE>>
                             [] n.c = "none" -> <<TRUE, \E x \in n.xs : InSide(rk, side, p, x)>>
                             [] n.c = "all"  -> <<\A x \in n.xs : InSide(rk, side, p, x), TRUE>>)
      [] n.op = "null" -> IF n.c = "notnull" THEN <<TRUE, FALSE>> ELSE <<FALSE, TRUE>>
      [] OTHER -> <<TRUE, TRUE>>

RECURSIVE May(_, _, _, _, _)
May(n, v, side, p, rk) ==
    CASE n.op = "lit" -> <<n.b, ~n.b>>
      [] n.op = "not" -> LET a == May(n.a, v, side, p, rk) IN <<a[2], a[1]>>
      [] n.op = "and" -> LET a == May(n.a, v, side, p, rk)
                             b == May(n.b, v, side, p, rk) IN <<a[1] /\ b[1], a[2] \/ b[2]>>
      [] n.op = "or"  -> LET a == May(n.a, v, side, p, rk)
                             b == May(n.b, v, side, p, rk) IN <<a[1] \/ b[1], a[2] /\ b[2]>>
      [] OTHER -> IF v \in VarsOf(n) THEN LeafMay(n, side, p, rk) ELSE <<TRUE, TRUE>>
=============================================================================
