-------------------------------- MODULE BEIndex --------------------------------
(* The partition tree, as recorded from the implementation or built by BETree:

     cnode = [m, s, p]   m capacity, s ids of the expressions in the leaf,
                         p sequence of [v, d]: partitions by attribute v, d a cdir
     cdir  = [v, b, n, l, r]  v attribute, b = <<lo, hi>>, n cnode,
                              l, r empty or <<cdir>>: the halves of the range

   ranks: attribute position -> function from known values to their numbers (strings,
   enumerated integers).                                                             *)
EXTENDS BESem

Infinite == <<1000, 0, 0, 0, 0>>

\* number of a value of attribute v
RankVal(cfg, ranks, v, x) ==
    CASE cfg[v].ty \in {"i", "f", "il"} -> x
      [] cfg[v].ty = "b" -> IF x THEN NumOne ELSE NumZero
      [] cfg[v].ty \in {"s", "ie", "sl"} ->
           IF v \in DOMAIN ranks /\ x \in DOMAIN ranks[v] THEN ranks[v][x] ELSE Infinite
      [] OTHER -> NumZero

SpanOf(cfg, ranks, v, xs) ==
    LET first == RankVal(cfg, ranks, v, xs[1]) IN
    FoldLeft(LAMBDA s, x : LET r == RankVal(cfg, ranks, v, x) IN <<NumMin(r, s[1]), NumMax(r, s[2])>>, <<first, first>>, xs)

\* the event is compatible with range b of attribute v, open where it is outermost
Enclosed(cfg, ranks, env, v, b, openL, openR) ==
    IF env[v] = <<>> THEN TRUE
    ELSE IF cfg[v].ty \in {"seg", "fc"} THEN TRUE
    ELSE IF cfg[v].ty \in {"il", "sl"} /\ Len(env[v][1]) = 0 THEN TRUE
    ELSE LET s == IF cfg[v].ty \in {"il", "sl"} THEN SpanOf(cfg, ranks, v, env[v][1])
                  ELSE LET r == RankVal(cfg, ranks, v, env[v][1]) IN <<r, r>>
         IN  /\ openL \/ NumLE(b[1], s[2])
             /\ openR \/ NumLE(s[1], b[2])

\* Ids a search looks at, one entry per stored expression, in a traversal order o:
\* o.kids: partitions before a node's own expressions; o.halves: halves of a range before
\* what spans both; o.right: right half first; o.parts, o.subs: lists from their end.
FirstOrder == [kids |-> FALSE, halves |-> FALSE, right |-> FALSE, parts |-> FALSE, subs |-> FALSE]
Orders == [kids : BOOLEAN, halves : BOOLEAN, right : BOOLEAN, parts : BOOLEAN, subs : BOOLEAN]
Cat(swap, x, y) == IF swap THEN y \o x ELSE x \o y

RECURSIVE ReachC(_, _, _, _, _), ReachD(_, _, _, _, _, _, _)
ReachC(c, env, cfg, ranks, o) ==
    Cat(o.kids, IF o.subs THEN Reverse(c.s) ELSE c.s,
        FoldLeft(LAMBDA acc, q : IF cfg[q.v].und \/ env[q.v] # <<>>
                                 THEN Cat(o.parts, acc, ReachD(q.d, env, cfg, ranks, TRUE, TRUE, o)) ELSE acc, <<>>, c.p))
ReachD(d, env, cfg, ranks, openL, openR, o) ==
    Cat(o.halves, ReachC(d.n, env, cfg, ranks, o),
        Cat(o.right,
            IF d.l # <<>> /\ Enclosed(cfg, ranks, env, d.v, d.l[1].b, openL, FALSE)
            THEN ReachD(d.l[1], env, cfg, ranks, openL, FALSE, o) ELSE <<>>,
            IF d.r # <<>> /\ Enclosed(cfg, ranks, env, d.v, d.r[1].b, FALSE, openR)
            THEN ReachD(d.r[1], env, cfg, ranks, FALSE, openR, o) ELSE <<>>))

\* stored expressions with their path: sequence of <<id, path>>, path a sequence of
\* [v, b, ol, or] from the root
RECURSIVE PathsC(_, _), PathsD(_, _, _, _)
PathsC(c, path) == [j \in 1..Len(c.s) |-> <<c.s[j], path>>] 
                   \o FoldLeft(LAMBDA acc, q : acc \o PathsD(q.d, path, TRUE, TRUE), <<>>, c.p)
PathsD(d, path, ol, or) ==
    LET here == Append(path, [v |-> d.v, b |-> d.b, ol |-> ol, or |-> or]) IN
    PathsC(d.n, here)
    \o (IF d.l # <<>> THEN PathsD(d.l[1], here, ol, FALSE) ELSE <<>>)
    \o (IF d.r # <<>> THEN PathsD(d.r[1], here, FALSE, or) ELSE <<>>)

\* shape faults that do not concern a particular expression: set of names
RECURSIVE ShapeC(_, _, _), ShapeD(_, _, _)
ShapeC(c, used, cfg) ==
    (IF Len(c.s) > c.m THEN {"leaf over capacity"} ELSE {})
    \cup UNION {LET d == c.p[j].d IN
                (IF d.v # c.p[j].v THEN {"partition attribute differs"} ELSE {})
                \cup (IF d.v \in used THEN {"attribute partitions a path twice"} ELSE {})
                \cup ShapeD(d, used \cup {d.v}, cfg) : j \in 1..Len(c.p)}
ShapeD(d, used, cfg) ==
    LET kids == d.l \o d.r IN
    ShapeC(d.n, used, cfg)
    \cup UNION {(IF kids[j].v # d.v THEN {"half of another attribute"} ELSE {})
                \cup (IF NumLT(kids[j].b[1], d.b[1]) \/ NumLT(d.b[2], kids[j].b[2]) THEN {"range not nested"} ELSE {})
                \cup ShapeD(kids[j], used, cfg) : j \in 1..Len(kids)}

RankRec(cfg, ranks, v) ==
    IF cfg[v].ty \in {"s", "sl", "ie"}
    THEN [num |-> FALSE, int |-> FALSE, tab |-> IF v \in DOMAIN ranks THEN ranks[v] ELSE <<>>]
    ELSE [num |-> TRUE, int |-> cfg[v].ty \in {"i", "il"}, tab |-> <<>>]

\* expression n may be stored below path: set of fault names
Misplaced(n, path, cfg, ranks) ==
    UNION {LET e == path[j]  rk == RankRec(cfg, ranks, e.v) IN
           IF e.v \notin VarsOf(n) THEN {"expression does not use a partitioning attribute"}
           ELSE IF cfg[e.v].ty \in {"seg", "fc"} THEN {}
           ELSE IF (~e.ol /\ May(n, e.v, "lt", e.b[1], rk)[1]) \/ (~e.or /\ May(n, e.v, "gt", e.b[2], rk)[1])
                THEN {"range does not cover the expression"} ELSE {} : j \in 1..Len(path)}
=============================================================================
