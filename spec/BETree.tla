--------------------------------- MODULE BETree ---------------------------------
(* Design of the index: what any implementation may do with the tree, and why searches
   on it are exact.

   A state is a partition tree over the expressions inserted so far. Steps:
     Insert     an expression is stored in some node whose ranges cover it
     Partition  some expressions of a leaf that use an attribute move below a new
                partition by that attribute
     Split      a range is halved anywhere, and expressions covered by a half move there
   Which of them happens, where, and how much is moved is left open: capacities, scores
   and split points of the implementation are particular choices. Invariants hold in
   every reachable state, for every event of a small universe:
     Exact      a search that only enters compatible partitions and decides early where it
                can matches precisely the expressions that are true
     Once       every inserted expression is stored once, and looked at once at most
     Early      what is decided from undefined attributes is the value
     Cached     evaluation with cached results of shared conditions gives the value
     Sound      the range rule (May) never excludes an event that makes the expression true
   The recorded trees of the implementation are checked against the same rules (ShapeC,
   Misplaced) by BETrace: each of them is a state of this specification.

   BT_U      universe        BT_MOD, BT_RES   which sets of expressions
   BT_STEPS  structural steps (partitions and splits) at most                          *)
EXTENDS BEIndex, IOUtils

VARIABLES pick, todo, tree, left
vars == <<pick, todo, tree, left>>

-----------------------------------------------------------------------------
(* Universes: attributes, expressions (parsed from their text), events.                *)
Alphabet == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~\"\\"
AsciiOrder == <<32, 33, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47>>
         \o [i \in 1..43 |-> 47 + i] \o <<91, 93, 94, 95, 96>> \o [i \in 1..26 |-> 96 + i] \o <<123, 124, 125, 126, 34, 92>>
CodeOf == [c \in {SubSeq(Alphabet, i, i) : i \in 1..Len(Alphabet)} |->
             AsciiOrder[CHOOSE i \in 1..Len(Alphabet) : SubSeq(Alphabet, i, i) = c]]
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

U == IOEnv.BT_U
Bool == [nm |-> B("b"), ty |-> "b", und |-> TRUE, unb |-> TRUE, lo |-> NumZero, hi |-> NumOne, cap |-> 0]
Attr(nm, ty) == [nm |-> B(nm), ty |-> ty, und |-> TRUE, unb |-> FALSE, lo |-> NumZero, hi |-> NumOf(3), cap |-> 4]
Cfg == CASE U = "int"   -> <<Attr("i", "i"), Bool>>
         [] U = "float" -> <<Attr("i", "f"), Bool>>
         [] U = "list"  -> <<Attr("l", "il"), Bool>>
         [] U = "str"   -> <<Attr("s", "s"), Bool>>
         [] U = "slist" -> <<Attr("m", "sl"), Bool>>
Ix == [n \in {Cfg[j].nm : j \in 1..2} |-> CHOOSE j \in 1..2 : Cfg[j].nm = n]
PP == B("p")  QQ == B("q")  RR == B("r")  TT == B("t")  UU == B("u")
Ranks == IF U \in {"str", "slist"} THEN (1 :> [x \in {PP, QQ, RR, TT} |-> CASE x = PP -> NumZero [] x = QQ -> NumOne [] x = RR -> NumOf(2) [] x = TT -> NumOf(3)])
         ELSE <<>>

Texts == CASE U \in {"int", "float"} ->
                <<"i = 0", "i <= 1", "i >= 2", "i <> 3", "i > 1 and b", "i < 2 or b", "not (i = 2)", "i is null", "not b", "not (i > 0 or b)", "i < 1 and i > 2", "true">>
           [] U = "list" ->
                <<"l one of (0)", "l one of (1,2)", "l none of (3)", "l all of (0,3)", "2 in l", "0 not in l", "l is empty", "not (l one of (0,1))",
                  "l one of (3) and b", "l none of (0,1) or b", "not (l all of (1,2))", "not (3 in l)">>
           [] U = "str" ->
                <<"s = 'p'", "s = 'q' or s = 't'", "s in ('r','p')", "s <> 'q'", "s not in ('p','t')", "not (s = 'r')", "s = 't' and b", "s = 'p' or b",
                  "s is null", "contains(s, 'p')", "not (s in ('q','r'))", "not b">>
           [] U = "slist" ->
                <<"m one of ('p')", "m one of ('r','q')", "m none of ('q')", "m all of ('p','q')", "'t' in m", "'p' not in m", "m is empty",
                  "not (m one of ('p','t'))", "m all of ('t') and b", "m none of ('p') or b", "not (m all of ('q','t'))", "not ('r' in m)">>
Exprs == [j \in 1..Len(Texts) |-> Unify(Resolve(ParseExpr(B(Texts[j])).ast, Ix), Cfg)]
N == Len(Texts)

Lists(S) == {<<>>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x \in S, y \in S}
Vals == CASE U = "int" -> {NumOf(x) : x \in -1..4}
          [] U = "float" -> {NumOf(x) : x \in -1..4} \cup {<<0, 0, 0, 1, 500000>>, <<0, 0, 0, 2, 250000>>}
          [] U = "list" -> Lists({NumOf(x) : x \in {-1, 0, 1, 2, 3, 4}})
          [] U = "str" -> {PP, QQ, RR, TT, UU}
          [] U = "slist" -> Lists({PP, QQ, RR, TT, UU})
Envs == {<<x, y>> : x \in {<<>>} \cup {<<v>> : v \in Vals}, y \in {<<>>, <<TRUE>>, <<FALSE>>}}

-----------------------------------------------------------------------------
(* Trees. Sequences are kept sorted, so that equal trees are equal states.             *)
Leaf(ids) == [m |-> 0, s |-> SetToSortSeq(ids, <), p |-> <<>>]
Full(v) == IF v = 2 THEN <<NumZero, NumOne>> ELSE <<NumZero, NumOf(3)>>
Add(c, id) == [c EXCEPT !.s = SetToSortSeq(SeqSet(@) \cup {id}, <)]
Drop(c, ids) == [c EXCEPT !.s = SetToSortSeq(SeqSet(@) \ ids, <)]
AddPart(c, pt) == [c EXCEPT !.p = SortSeq(Append(@, pt), LAMBDA x, y : x.v < y.v)]

Entry(d, ol, or) == [v |-> d.v, b |-> d.b, ol |-> ol, or |-> or]
Fits(id, d, ol, or) == Misplaced(Exprs[id], <<Entry(d, ol, or)>>, Cfg, Ranks) = {}

\* trees after inserting id somewhere below
RECURSIVE InC(_, _), InD(_, _, _, _)
InC(c, id) ==
    {Add(c, id)} \cup UNION {IF c.p[j].v \in VarsOf(Exprs[id])
                             THEN {[c EXCEPT !.p[j].d = d] : d \in InD(c.p[j].d, id, TRUE, TRUE)} ELSE {} : j \in 1..Len(c.p)}
InD(d, id, ol, or) ==
    {[d EXCEPT !.n = c] : c \in InC(d.n, id)}
    \cup (IF d.l # <<>> /\ Fits(id, d.l[1], ol, FALSE) THEN {[d EXCEPT !.l = <<x>>] : x \in InD(d.l[1], id, ol, FALSE)} ELSE {})
    \cup (IF d.r # <<>> /\ Fits(id, d.r[1], FALSE, or) THEN {[d EXCEPT !.r = <<x>>] : x \in InD(d.r[1], id, FALSE, or)} ELSE {})

\* trees after one structural step somewhere below; used: attributes of the path
RECURSIVE StC(_, _), StD(_, _, _, _)
StC(c, used) ==
    UNION {LET users == {id \in SeqSet(c.s) : v \in VarsOf(Exprs[id])} IN
           {AddPart(Drop(c, mv), [v |-> v, d |-> [v |-> v, b |-> Full(v), n |-> Leaf(mv), l |-> <<>>, r |-> <<>>]]) :
              mv \in (SUBSET users) \ {{}}} : v \in {w \in {1, 2} \ used : \A j \in 1..Len(c.p) : c.p[j].v # w}}
    \cup UNION {{[c EXCEPT !.p[j].d = d] : d \in StD(c.p[j].d, used, TRUE, TRUE)} : j \in 1..Len(c.p)}
Points(d) == {NumOf(x) : x \in {x \in 0..3 : NumLE(d.b[1], NumOf(x)) /\ NumLE(NumOf(x), d.b[2])}}
StD(d, used, ol, or) ==
    {[d EXCEPT !.n = c] : c \in StC(d.n, used \cup {d.v})}
    \cup (IF d.l # <<>> THEN {[d EXCEPT !.l = <<x>>] : x \in StD(d.l[1], used, ol, FALSE)} ELSE {})
    \cup (IF d.r # <<>> THEN {[d EXCEPT !.r = <<x>>] : x \in StD(d.r[1], used, FALSE, or)} ELSE {})
    \cup (IF d.l = <<>> /\ d.r = <<>> /\ NumLT(d.b[1], d.b[2])
          THEN UNION {UNION {
                 LET l0 == [v |-> d.v, b |-> <<d.b[1], m1>>, n |-> Leaf({}), l |-> <<>>, r |-> <<>>]
                     r0 == [v |-> d.v, b |-> <<m2, d.b[2]>>, n |-> Leaf({}), l |-> <<>>, r |-> <<>>]
                     lo == {id \in SeqSet(d.n.s) : Fits(id, l0, ol, FALSE)}
                     ro == {id \in SeqSet(d.n.s) : Fits(id, r0, FALSE, or)}
                 IN  {[d EXCEPT !.l = <<[l0 EXCEPT !.n = Leaf(a)]>>, !.r = <<[r0 EXCEPT !.n = Leaf(e \ a)]>>,
                                !.n = Drop(@, a \cup e)] : a \in SUBSET lo, e \in SUBSET ro}
               : m2 \in Points(d)} : m1 \in Points(d)}
          ELSE {})

-----------------------------------------------------------------------------
Mod == atoi(IOEnv.BT_MOD)
Res == atoi(IOEnv.BT_RES)
K == atoi(IOEnv.BT_N)
Sets == kSubset(K, 1..N)
Code(S) == FoldSet(LAMBDA x, a : (a * 13 + x * 7) % 1009, 5, S)

Init == /\ pick \in {S \in Sets : Code(S) % Mod = Res}
        /\ todo = pick
        /\ tree = Leaf({})
        /\ left = atoi(IOEnv.BT_STEPS)
Insert == /\ todo # {}
          /\ \E id \in todo : /\ tree' \in InC(tree, id)
                              /\ todo' = todo \ {id}
          /\ UNCHANGED <<pick, left>>
Structure == /\ left > 0
             /\ tree' \in StC(tree, {})
             /\ left' = left - 1
             /\ UNCHANGED <<pick, todo>>
Next == Insert \/ Structure
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Reached(env) == ReachC(tree, env, Cfg, Ranks, FirstOrder)
Decided(n, env) == {v \in VarsOf(n) : Cfg[v].und /\ env[v] = <<>> /\ Decide(n, v) # "U"}
\* what a search answers for a candidate
Answer(n, env) == IF Decided(n, env) # {} THEN Decide(n, CHOOSE v \in Decided(n, env) : TRUE) = "T" ELSE Eval(n, env)

Inserted == pick \ todo
Exact == \A env \in Envs : {id \in SeqSet(Reached(env)) : Answer(Exprs[id], env)} = {id \in Inserted : Eval(Exprs[id], env)}
Once == /\ LET ps == PathsC(tree, <<>>) IN /\ Len(ps) = Cardinality(Inserted) /\ {ps[j][1] : j \in 1..Len(ps)} = Inserted
        /\ \A env \in Envs : Cardinality(SeqSet(Reached(env))) = Len(Reached(env))
Placed == \A j \in 1..Len(PathsC(tree, <<>>)) : Misplaced(Exprs[PathsC(tree, <<>>)[j][1]], PathsC(tree, <<>>)[j][2], Cfg, Ranks) = {}
Formed == ShapeC(tree, {}, Cfg) \subseteq {"leaf over capacity"}

\* checked once, in the initial states
Early == left = atoi(IOEnv.BT_STEPS) /\ todo = pick =>
         \A id \in pick : \A env \in Envs : \A v \in Decided(Exprs[id], env) : (Decide(Exprs[id], v) = "T") = Eval(Exprs[id], env)
\* seen twice: any set of conditions may be cached
RECURSIVE RunCached(_, _, _, _)
RunCached(ids, env, many, cache) ==
    IF ids = {} THEN TRUE
    ELSE LET id == CHOOSE x \in ids : TRUE
             r == CachedEval(Exprs[id], env, many, cache, 0)
         IN  r[1] = Eval(Exprs[id], env) /\ RunCached(ids \ {id}, env, many, r[2])
Cached == left = atoi(IOEnv.BT_STEPS) /\ todo = pick =>
          \A env \in Envs :
             LET all == UNION {SeqSet(Nodes(Exprs[id])) : id \in pick} IN
             \A many \in {all} \cup {all \ {x} : x \in all} \cup {{x} : x \in all} : RunCached(pick, env, many, {})
Side(v, side, p, x) ==
    LET rk == RankRec(Cfg, Ranks, v)
        xs == IF Cfg[v].ty \in {"il", "sl"} THEN SeqSet(x) ELSE {IF Cfg[v].ty = "b" THEN IF x THEN NumOne ELSE NumZero ELSE x}
        num(y) == IF rk.num THEN y ELSE IF y \in DOMAIN rk.tab THEN rk.tab[y] ELSE Infinite
    IN  xs # {} /\ \A y \in xs : IF side = "lt" THEN NumLT(num(y), p) ELSE NumLT(p, num(y))
Sound == left = atoi(IOEnv.BT_STEPS) /\ todo = pick =>
         \A id \in pick : \A env \in Envs : \A v \in VarsOf(Exprs[id]) : env[v] # <<>> =>
            \A side \in {"lt", "gt"} : \A p \in {NumOf(x) : x \in IF Cfg[v].ty = "b" THEN 0..1 ELSE 0..3} :
               Side(v, side, p, env[v][1]) /\ Eval(Exprs[id], env) => May(Exprs[id], v, side, p, RankRec(Cfg, Ranks, v))[1]
=============================================================================
