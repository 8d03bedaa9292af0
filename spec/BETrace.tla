-------------------------------- MODULE BETrace --------------------------------
(* Judges recorded behaviours of the implementation.

   The trace file has one JSON object per line: a scenario
       [name, steps: sequence of calls, each with its observed result r, done, code]
   Every scenario is one behaviour of this specification: k picks it, pos walks along
   its calls, st is the abstract state the calls should have led to. An observation
   the state does not allow prints a line "VIOL|scenario|step|kind|detail".

   kinds: accept    outcome of a registration            required  refusal of an event
          answer    matched ids                          exists    existence answer
          report    shape and accumulation of a report   evaluated / shorted / memoized
          twin      differs from an equivalent query     exsearch  existence against search
          struct    structure of the index               sharing   interned conditions
          defs      attribute definitions                ledger    memory balance
          print     printed form of an expression        copy      copy of an expression
          order     order and equality of expressions
          ranges    learned ranges of the attributes
          crash     the process died                     badgen    the scenario is not valid *)
EXTENDS BEIndex, BELearn, Json, IOUtils, Bags

Traces == ndJsonDeserialize(IOEnv.BE_TRACE)

VARIABLES k, pos, st, bad
vars == <<k, pos, st, bad>>

Steps == Traces[k].steps
Step == Steps[pos]

EmptyRep == [ev |-> 0, ma |-> 0, me |-> 0, sh |-> 0, ids |-> <<>>]
NewTree(s) == [cfg |-> <<>>, ix |-> <<>>, subs |-> <<>>, known |-> {}, seen |-> [one |-> {}, many |-> {}],
               rep |-> EmptyRep, walk |-> <<>>, rng |-> <<>>]
Empty == [tr |-> <<>>, sl |-> <<>>, grp |-> <<>>, held |-> <<>>]

Put(f, key, val) == [x \in DOMAIN f \cup {key} |-> IF x = key THEN val ELSE f[x]]
Del(f, key) == [x \in DOMAIN f \ {key} |-> f[x]]

BagOf(ids) == [x \in SeqSet(ids) |-> Cardinality({j \in 1..Len(ids) : ids[j] = x})]

-----------------------------------------------------------------------------
(* Registrations. Parsed(e) is the resolved expression with its validity.             *)
Reg(t, e, cs, build) ==
    LET p == ParseExpr(e)
        r == IF p.ok THEN Resolve(p.ast, t.ix) ELSE <<>>
        d == p.ok /\ AllDeclared(r)
        ms == IF d THEN Mentions(r, t.cfg) ELSE {}
        ok == d /\ (IF build THEN WellTyped(r, t.cfg) ELSE CapacityOK(ms, t.cfg, t.known))
                /\ ConstsOK(r, cs)
    IN  [ok |-> ok, ms |-> ms, r |-> r, n |-> IF ok THEN Unify(BindConsts(r, cs), t.cfg) ELSE <<>>]

Learned(t, g) == [t EXCEPT !.known = @ \cup g.ms, !.seen = SeeAll(@, Nodes(g.n)), !.walk = <<>>]
\* what an expression that is built, or only learned from, does to the ranges
WithRanges(t, r) == [t EXCEPT !.rng = LearnRanges(@, r, t.cfg, t.known)]
Stored(t, id, n) == [t EXCEPT !.subs = Append(@, [id |-> id, n |-> n]), !.walk = <<>>]

V(kind, detail) == <<<<kind, detail>>>>
None == <<>>
Acc(ret, ok) == IF ret = ok THEN None
                ELSE V("accept", IF ok THEN "refused a valid expression" ELSE "accepted an invalid expression")

-----------------------------------------------------------------------------
(* Queries.                                                                          *)
EventFields(s) == IF s.a = "event" THEN [ok |-> TRUE, ev |-> s.ev] ELSE ParseEvent(s.e)

Matching(t, env) == SelectSeq(t.subs, LAMBDA s : Eval(s.n, env))
Idlist(ss) == [j \in 1..Len(ss) |-> ss[j].id]
Judged(t, env) == \A j \in 1..Len(t.subs) : ~Unsure(t.subs[j].n, env)
UniqueIds(t) == \A i, j \in 1..Len(t.subs) : i # j => t.subs[i].id # t.subs[j].id
SubOf(t, id) == t.subs[CHOOSE j \in 1..Len(t.subs) : t.subs[j].id = id].n

\* hits over all candidates that are not decided early
RunAll(t, env, ids) ==
    FoldLeft(LAMBDA acc, id :
               LET n == SubOf(t, id) IN
               IF Shorted(n, env, t.cfg) THEN acc ELSE CachedEval(n, env, t.seen.many, acc[2], acc[3]),
             <<FALSE, {}, 0>>, ids)[3]

Cands(t, env, o) == ReachC(t.walk[1].root, env, t.cfg, t.walk[1].ranks, o)
\* The cache hits depend on the order in which the candidates are examined, which is
\* not part of the contract: any of the traversal orders will do.
Hits(t, env, o) == RunAll(t, env, Cands(t, env, o))
HitsCheck(t, env, dme) ==
    IF Hits(t, env, FirstOrder) = dme THEN None
    ELSE LET all == {Hits(t, env, o) : o \in Orders} IN
         IF dme \in all THEN None ELSE V("memoized", ToString(dme) \o " instead of " \o ToString(all))
Known(t, ids) == SeqSet(ids) \subseteq {t.subs[j].id : j \in 1..Len(t.subs)}

Num(kind, got, want) == IF got = want THEN None ELSE V(kind, ToString(got) \o " instead of " \o ToString(want))

\* verdict on the counts of one search, given the increments it caused
CountChecks(t, env, dev, dsh, dme) ==
    IF t.walk = <<>> \/ ~Judged(t, env) THEN None
    ELSE LET cs == Cands(t, env, FirstOrder) IN
         Num("evaluated", dev, Len(cs))
         \o (IF UniqueIds(t) /\ Known(t, cs)
             THEN Num("shorted", dsh, Cardinality({j \in 1..Len(cs) : Shorted(SubOf(t, cs[j]), env, t.cfg)}))
                  \o HitsCheck(t, env, dme)
             ELSE None)

TwinCheck(tw, grp, obs) ==
    IF tw.m = "eq" /\ tw.g \in DOMAIN grp /\ grp[tw.g] # obs
    THEN V("twin", ToString(obs) \o " instead of " \o ToString(grp[tw.g])) ELSE None
TwinNext(tw, grp, obs) ==
    CASE tw.m = "set" -> Put(grp, tw.g, obs)
      [] tw.m = "add" -> Put(grp, tw.g, IF tw.g \in DOMAIN grp THEN grp[tw.g] (+) obs ELSE obs)
      [] OTHER -> grp
Refused == SetToBag({"refused"})

\* one search result r on a report that held old
SearchChecks(t, env, r, old) ==
    LET miss == Missing(env, t.cfg) IN
    IF r.ret = miss THEN V("required", IF miss THEN "event without a required attribute accepted"
                                       ELSE "valid event refused")
    ELSE IF miss THEN (IF r.ev = old.ev /\ r.ma = old.ma /\ r.me = old.me /\ r.sh = old.sh /\ r.ids = old.ids
                       THEN None ELSE V("report", "refused search changed the report"))
    ELSE LET n == Len(old.ids)
             shape == /\ r.ma = Len(r.ids) /\ Len(r.ids) >= n
                      /\ SubSeq(r.ids, 1, n) = old.ids
         IN  IF ~shape THEN V("report", "ids and counts do not extend the report")
             ELSE (IF ~Judged(t, env) THEN None
                   ELSE LET got == BagOf(SubSeq(r.ids, n + 1, Len(r.ids)))
                            want == BagOf(Idlist(Matching(t, env)))
                        IN  IF got = want THEN None
                            ELSE V("answer", ToString(got) \o " instead of " \o ToString(want)))
                  \o CountChecks(t, env, r.ev - old.ev, r.sh - old.sh, r.me - old.me)

Observed(r, old) == IF r.ret THEN BagOf(SubSeq(r.ids, Len(old.ids) + 1, Len(r.ids))) ELSE Refused

ExistsChecks(t, env, ret) ==
    IF Missing(env, t.cfg) THEN (IF ret THEN V("required", "existence reported for a refused event") ELSE None)
    ELSE IF ~Judged(t, env) THEN None
    ELSE LET want == \E j \in 1..Len(t.subs) : Eval(t.subs[j].n, env) IN
         IF ret = want THEN None ELSE V("exists", "answer is not " \o ToString(want))
ExSearch(tw, grp, ret) ==
    IF tw.m = "ex" /\ tw.g \in DOMAIN grp /\ ret # (grp[tw.g] # Refused /\ grp[tw.g] # EmptyBag)
    THEN V("exsearch", "existence query says " \o ToString(ret)) ELSE None

\* the queries ops[j..] on one constructed event
RECURSIVE EventOps(_, _, _, _, _, _)
EventOps(t, env, rs, j, tw, acc) ==
    IF j > Len(rs) THEN acc
    ELSE LET r == rs[j] IN
         IF r.o = "s"
         THEN LET obs == Observed(r, EmptyRep) IN
              EventOps(t, env, rs, j + 1, tw,
                       [v |-> acc.v \o SearchChecks(t, env, r, EmptyRep) \o TwinCheck(tw, acc.grp, obs),
                        grp |-> TwinNext(tw, acc.grp, obs)])
         ELSE EventOps(t, env, rs, j + 1, tw,
                       [v |-> acc.v \o ExistsChecks(t, env, r.ret)
                                    \o ExSearch([m |-> "ex", g |-> tw.g], acc.grp, r.ret),
                        grp |-> acc.grp])

-----------------------------------------------------------------------------
(* Structure.                                                                        *)
RanksOf(w) == [v \in {w.sid[j].v : j \in 1..Len(w.sid)} |->
                 LET m == w.sid[CHOOSE j \in 1..Len(w.sid) : w.sid[j].v = v].m IN
                 [x \in {m[j][1] : j \in 1..Len(m)} |-> m[CHOOSE j \in 1..Len(m) : m[j][1] = x][2]]]

SetMsg(S) == IF S = {} THEN None ELSE V("struct", ToString(S))

StructChecks(t, w, ranks) ==
    LET ps == PathsC(w.root, <<>>)
        stored == BagOf([j \in 1..Len(ps) |-> ps[j][1]])
        want == BagOf(Idlist(t.subs))
        cand(id) == {t.subs[j].n : j \in {i \in 1..Len(t.subs) : t.subs[i].id = id}}
    IN  SetMsg(ShapeC(w.root, {}, t.cfg))
        \o (IF stored = want THEN None ELSE V("struct", "stored expressions are not the registered ones"))
        \o SetMsg(UNION {LET c == cand(ps[j][1]) IN
                         IF \E n \in c : Misplaced(n, ps[j][2], t.cfg, ranks) = {} THEN {}
                         ELSE UNION {Misplaced(n, ps[j][2], t.cfg, ranks) : n \in c} : j \in 1..Len(ps)})

SharingChecks(t, w) ==
    LET d == Cardinality(t.seen.one) + Cardinality(t.seen.many)
        m == Cardinality(t.seen.many)
    IN  IF w.preds = d /\ w.memos = m THEN None
        ELSE V("sharing", "distinct " \o ToString(w.preds) \o "/" \o ToString(d) \o
                          " shared " \o ToString(w.memos) \o "/" \o ToString(m))

\* what a group remembers of a walk; groups from 5000 on: only the counts of conditions
WalkObs(w, g) == SetToBag({IF g >= 5000 THEN <<w.preds, w.memos>> ELSE <<w.preds, w.memos, w.root, w.sid>>})

-----------------------------------------------------------------------------
(* Declared domains; printed forms, copies and the order of expressions.              *)
Domain(d, r) == <<d.nm, d.ty, d.und, d.unb /\ d.ty \in {"s", "sl", "ie"}, r.lo, r.hi, d.cap>>

\* a learned range as observed: <<lo, hi, numbered, largest number>>
RangeObs(d, r) == <<r.lo, r.hi, r.top # <<>>, IF r.top = <<>> THEN 0 ELSE r.top[1]>>

Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

\* the default segment list may be named
RECURSIVE Plain(_)
Plain(n) == CASE n.op = "seg" -> [n EXCEPT !.dflt = FALSE]
              [] n.op = "not" -> [n EXCEPT !.a = Plain(n.a)]
              [] n.op \in {"and", "or"} -> [n EXCEPT !.a = Plain(n.a), !.b = Plain(n.b)]
              [] OTHER -> n

ShowChecks(t, b, r) ==
    LET p == ParseExpr(r.text)
        q == IF p.ok THEN Resolve(p.ast, t.ix) ELSE <<>>
        same == /\ p.ok
                /\ AllDeclared(q)
                /\ ConstsOK(q, b.cs)
                /\ Plain(Unify(BindConsts(q, b.cs), t.cfg)) = Plain(b.n)
    IN  (IF same THEN None ELSE V("print", ToString(r.text)))
        \o (IF r.copy # r.text THEN V("copy", "prints differently: " \o ToString(r.copy))
            ELSE IF ~r.eq THEN V("copy", "a copy is not equal to its original") ELSE None)

\* a total order in which exactly the same conditions are equal
OrderChecks(ns, r) ==
    LET D == 1..Len(ns)
        c == r.cmp
    IN  (IF \A i, j \in D : (c[i][j] = 0) = (ns[i] = ns[j]) THEN None
         ELSE V("order", "equal in the order but not the same, or the reverse"))
        \o (IF \A i, j \in D : c[i][j] = -c[j][i] THEN None ELSE V("order", "not antisymmetric"))
        \o (IF \A i, j, l \in D : c[i][j] < 0 /\ c[j][l] < 0 => c[i][l] < 0 THEN None ELSE V("order", "not transitive"))
        \o (IF \A i, j \in D : r.eq[i][j] = (ns[i] = ns[j]) THEN None ELSE V("order", "wrong equality"))

-----------------------------------------------------------------------------
(* One call: [st, v] = next abstract state and verdict.                              *)
WithVar(t, d) == [t EXCEPT !.cfg = Append(@, d), !.ix = Put(@, d.nm, Len(t.cfg) + 1), !.rng = Append(@, FirstRange(d))]
TreeOf(s, x) == s.tr[x.t]
WithTree(s, x, t) == [s EXCEPT !.tr = Put(s.tr, x.t, t)]
Out(s, v) == [st |-> s, v |-> v]

Judge(s, x) ==
    CASE x.a = "make" -> Out(WithTree(s, x, NewTree(x)), IF x.r.ret THEN None ELSE V("accept", "no index"))
      [] x.a = "var" ->
           LET t == TreeOf(s, x)
               d == [nm |-> x.nm, ty |-> x.ty, und |-> x.und, unb |-> x.unb, lo |-> x.lo, hi |-> x.hi, cap |-> x.cap]
           IN  Out(WithTree(s, x, WithVar(t, d)), None)
      [] x.a = "vart" ->
           LET t == TreeOf(s, x) IN
           IF ~WellFormed(x.e) THEN Out(s, V("badgen", "declaration"))
           ELSE LET d == Declared(x.e) IN
                Out(WithTree(s, x, WithVar(t, d)), None)
      [] x.a = "doms" ->
           LET t == TreeOf(s, x) IN
           Out(s, IF \/ ~x.r.has
                     \/ \E j \in 1..Len(t.cfg) : ~t.rng[j].ok
                     \/ x.r.doms = [j \in 1..Len(t.cfg) |-> Domain(t.cfg[j], t.rng[j])] THEN None
                  ELSE V("defs", ToString(x.r.doms)))
      [] x.a = "ranges" ->
           IF ~x.r.has THEN Out(s, None)
           ELSE LET t == TreeOf(s, x)  obs == SetToBag({x.r.rng}) IN
                Out([s EXCEPT !.grp = TwinNext(x.tw, s.grp, obs)],
                    (IF Len(x.r.rng) # Len(t.cfg) THEN V("ranges", "not one range per attribute")
                     ELSE Flat([j \in 1..Len(t.cfg) |->
                            IF ~t.rng[j].ok \/ x.r.rng[j] = RangeObs(t.cfg[j], t.rng[j]) THEN None
                            ELSE V("ranges", ToString(<<j, x.r.rng[j], RangeObs(t.cfg[j], t.rng[j])>>))]))
                    \o (IF TwinCheck(x.tw, s.grp, obs) = None THEN None ELSE V("ranges", "learned otherwise, the ranges differ")))
      [] x.a = "empty" ->
           LET t == TreeOf(s, x) IN
           IF \E j \in DOMAIN s.sl : s.sl[j].t = x.t THEN Out(s, V("badgen", "emptied with a built expression"))
           ELSE Out(WithTree(s, x, [t EXCEPT !.subs = <<>>, !.seen = [one |-> {}, many |-> {}], !.walk = <<>>]), None)
      [] x.a = "show" ->
           IF x.slot \notin DOMAIN s.sl \/ ~x.r.has THEN Out(s, None)
           ELSE Out(s, ShowChecks(TreeOf(s, x), s.sl[x.slot], x.r))
      [] x.a = "dup" ->
           IF x.slot \notin DOMAIN s.sl \/ ~x.r.has THEN Out([s EXCEPT !.sl = Del(@, x.to)], None)
           ELSE LET b == s.sl[x.slot] IN
                Out([WithTree(s, x, Learned(TreeOf(s, x), [ms |-> {}, n |-> b.n])) EXCEPT !.sl = Put(@, x.to, [b EXCEPT !.id = x.id])], None)
      [] x.a = "order" ->
           Out(s, IF ~x.r.has THEN None ELSE OrderChecks([j \in 1..Len(x.r.slots) |-> s.sl[x.r.slots[j]].n], x.r))
      [] x.a = "ins" ->
           LET t == TreeOf(s, x)  g == Reg(t, x.e, x.cs, FALSE) IN
           Out(IF g.ok THEN WithTree(s, x, Stored(Learned(t, g), x.id, g.n)) ELSE s, Acc(x.r.ret, g.ok))
      [] x.a = "msub" ->
           LET t == TreeOf(s, x)  g == Reg(t, x.e, x.cs, TRUE) IN
           Out(IF g.ok THEN [WithTree(s, x, WithRanges(Learned(t, g), g.r)) EXCEPT !.sl = Put(@, x.slot, [id |-> x.id, n |-> g.n, cs |-> x.cs, t |-> x.t])]
               ELSE [s EXCEPT !.sl = Del(@, x.slot)], Acc(x.r.ret, g.ok))
      [] x.a = "isub" ->
           IF x.slot \in DOMAIN s.sl
           THEN LET b == s.sl[x.slot] IN
                Out([WithTree(s, x, Stored(TreeOf(s, x), b.id, b.n)) EXCEPT !.sl = Del(@, x.slot)], Acc(x.r.ret, TRUE))
           ELSE Out(s, IF x.r.ret THEN V("accept", "inserted an expression that was never built") ELSE None)
      [] x.a = "chb" ->
           LET t == TreeOf(s, x)
               p == ParseExpr(x.e)
               r == IF p.ok THEN Resolve(p.ast, t.ix) ELSE <<>>
               ok == p.ok /\ AllDeclared(r)
           IN  Out(IF ok THEN WithTree(s, x, WithRanges([t EXCEPT !.known = @ \cup Mentions(r, t.cfg), !.walk = <<>>], r)) ELSE s,
                   Acc(x.r.ret, ok))
      [] x.a = "search" ->
           LET t == TreeOf(s, x)  f == EventFields(x)
               old == IF x.reuse THEN t.rep ELSE EmptyRep
               env == EnvOf(f.ev, t.cfg, t.ix)
               obs == Observed(x.r, old)
           IN  IF ~f.ok \/ ~EventOK(f.ev, t.ix) THEN Out(s, V("badgen", "event"))
               ELSE Out([WithTree(s, x, [t EXCEPT !.rep = [ev |-> x.r.ev, ma |-> x.r.ma, me |-> x.r.me,
                                                           sh |-> x.r.sh, ids |-> x.r.ids]])
                         EXCEPT !.grp = TwinNext(x.tw, s.grp, obs)],
                        SearchChecks(t, env, x.r, old) \o TwinCheck(x.tw, s.grp, obs))
      [] x.a = "exists" ->
           LET t == TreeOf(s, x)  f == EventFields(x)
               env == EnvOf(f.ev, t.cfg, t.ix)
           IN  IF ~f.ok \/ ~EventOK(f.ev, t.ix) THEN Out(s, V("badgen", "event"))
               ELSE Out(s, ExistsChecks(t, env, x.r.ret) \o ExSearch(x.tw, s.grp, x.r.ret))
      [] x.a = "event" ->
           LET t == TreeOf(s, x)
               env == EnvOf(x.ev, t.cfg, t.ix)
               res == EventOps(t, env, x.r.rs, 1, x.tw, [v |-> None, grp |-> s.grp])
           IN  IF ~EventOK(x.ev, t.ix) THEN Out(s, V("badgen", "event"))
               ELSE Out([s EXCEPT !.grp = res.grp], res.v)
      [] x.a = "hold" -> Out([s EXCEPT !.held = Put(@, x.slot, x.ev)], None)
      [] x.a = "drop" -> Out([s EXCEPT !.held = Del(@, x.slot)], None)
      \* a kept event is still the event it was, whatever it was asked before and of which index
      [] x.a = "ask" ->
           IF x.slot \notin DOMAIN s.held \/ ~EventOK(s.held[x.slot], TreeOf(s, x).ix) THEN Out(s, V("badgen", "event"))
           ELSE LET t == TreeOf(s, x)
                    env == EnvOf(s.held[x.slot], t.cfg, t.ix)
                    res == EventOps(t, env, x.r.rs, 1, x.tw, [v |-> None, grp |-> s.grp])
                IN  Out([s EXCEPT !.grp = res.grp], res.v)
      [] x.a = "loose" -> Out(s, None)
      [] x.a = "find" ->
           LET ids == Idlist(TreeOf(s, x).subs) IN
           Out(s, IF ~x.r.has \/ x.r.ret = (\E j \in 1..Len(ids) : ids[j] = x.id) THEN None
                  ELSE V("struct", "looked up by id " \o x.id))
      [] x.a = "defs" ->
           LET t == TreeOf(s, x) IN
           Out(s, IF x.r.defs = [j \in 1..x.n |-> <<t.cfg[j].nm, t.cfg[j].ty>>] THEN None
                  ELSE V("defs", ToString(x.r.defs)))
      [] x.a = "walk" ->
           LET t == TreeOf(s, x) IN
           IF ~x.r.has THEN Out(s, None)
           ELSE LET ranks == RanksOf(x.r)  obs == WalkObs(x.r, x.tw.g) IN
                Out([WithTree(s, x, [t EXCEPT !.walk = <<[root |-> x.r.root, ranks |-> ranks]>>])
                     EXCEPT !.grp = TwinNext(x.tw, s.grp, obs)],
                    StructChecks(t, x.r, ranks) \o SharingChecks(t, x.r) \o
                    (IF TwinCheck(x.tw, s.grp, obs) = None THEN None ELSE V("twin", "the index changed")))
      [] x.a = "free" -> Out([s EXCEPT !.tr = Del(@, x.t)], None)
      [] x.a = "ledger" ->
           Out(s, IF DOMAIN s.tr # {} \/ DOMAIN s.held # {} THEN V("badgen", "ledger with a live index")
                  ELSE IF ~x.r.has \/ x.r.heap = 0 THEN None
                  ELSE V("ledger", ToString(x.r.heap) \o " bytes not returned"))

Fatal == {"accept", "badgen", "crash"}

Say(vs) == \A j \in 1..Len(vs) :
             PrintT("VIOL|" \o ToString(k) \o "|" \o ToString(pos) \o "|" \o vs[j][1] \o "|" \o vs[j][2])

Init == /\ k \in 1..Len(Traces)
        /\ pos = 1
        /\ st = Empty
        /\ bad = FALSE

Judging == /\ ~bad
           /\ pos <= Len(Steps)
           /\ LET o == Judge(st, Step) IN
              /\ st' = o.st
              /\ bad' = \E j \in 1..Len(o.v) : o.v[j][1] \in Fatal
              /\ Say(o.v)
           /\ pos' = pos + 1
           /\ UNCHANGED k

\* the implementation stopped before the scenario was over
Died == /\ ~bad
        /\ pos = Len(Steps) + 1
        /\ Traces[k].code # 0
        /\ bad' = TRUE
        /\ Say(V("crash", "exit code " \o ToString(Traces[k].code)))
        /\ UNCHANGED <<k, pos, st>>

Next == Judging \/ Died
Spec == Init /\ [][Next]_vars
Where == <<k, pos, bad>>
=============================================================================
