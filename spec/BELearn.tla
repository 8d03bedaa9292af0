-------------------------------- MODULE BELearn --------------------------------
(* Learning the ranges of attributes from an expression.

   The range of a numeric attribute is <<lo, hi>>, each end open or closed; that of a
   string or enumerated attribute is the largest number of a value, or none. The
   conditions of an expression give points of an attribute: the constants they name,
   the neighbour of a constant that a strict comparison excludes. A closed end only
   moves outwards, an open end closes at the outermost point. The number of a value
   is the order in which it became known, so a learned largest number is the number
   of the known values less one.                                                      *)
EXTENDS BESem, BEDecl

\* what one comparison says about its attribute: the outermost integer it admits
Limit(ty, c, x, inv) ==
    LET o == IF ~inv THEN c
             ELSE CASE c = "<" -> ">=" [] c = "<=" -> ">" [] c = ">" -> "<=" [] c = ">=" -> "<"
    IN  IF ty = "f" THEN x          \* the neighbour of a fraction is closer than any constant
        ELSE CASE o = "<" -> NumSub(x, NumOne) [] o = ">" -> NumAdd(x, NumOne) [] OTHER -> x

RECURSIVE Points(_, _, _, _)
Points(n, v, ty, inv) ==
    CASE n.op = "cmp"  -> IF n.v = v THEN {Limit(ty, n.c, n.x, inv)} ELSE {}
      [] n.op = "eq"   -> IF n.v = v THEN {n.x} ELSE {}
      [] n.op = "cin"  -> IF n.v = v THEN {n.x} ELSE {}
      [] n.op \in {"vin", "list"} -> IF n.v = v THEN n.xs ELSE {}
      [] n.op = "not"  -> Points(n.a, v, ty, ~inv)
      [] n.op \in {"and", "or"} -> Points(n.a, v, ty, inv) \cup Points(n.b, v, ty, inv)
      [] OTHER -> {}

Least(P)    == CHOOSE p \in P : \A q \in P : NumLE(p, q)
Greatest(P) == CHOOSE p \in P : \A q \in P : NumLE(q, p)

\* a range: ok = FALSE when it is not specified (an ill-typed expression was learned)
NoRange == [ok |-> TRUE, lo |-> NumZero, hi |-> NumZero, top |-> <<>>]
FirstRange(d) ==
    CASE d.ty \in {"i", "il", "f"} -> [NoRange EXCEPT !.lo = d.lo, !.hi = d.hi]
      [] d.ty \in {"s", "sl", "ie"} -> [NoRange EXCEPT !.top = IF d.unb THEN <<>> ELSE <<d.cap - 1>>]
      [] OTHER -> NoRange

OpenLow(ty)  == IF ty = "f" THEN FltLow ELSE I64Min
OpenHigh(ty) == IF ty = "f" THEN FltHigh ELSE I64Max

\* n: resolved and well-typed; known: <<attribute, value>> known once n is registered
Widened(r, v, d, n, known) ==
    CASE d.ty \in {"i", "il", "f"} ->
           LET P == Points(n, v, d.ty, FALSE) IN
           IF P = {} THEN r
           ELSE [r EXCEPT !.lo = IF r.lo = OpenLow(d.ty) THEN Least(P) ELSE NumMin(r.lo, Least(P)),
                          !.hi = IF r.hi = OpenHigh(d.ty) THEN Greatest(P) ELSE NumMax(r.hi, Greatest(P))]
      [] d.ty \in {"s", "sl", "ie"} ->
           IF Points(n, v, d.ty, FALSE) = {} THEN r
           ELSE LET c == Cardinality({m \in known : m[1] = v}) - 1 IN
                [r EXCEPT !.top = IF r.top = <<>> THEN <<c>> ELSE <<IF c > r.top[1] THEN c ELSE r.top[1]>>]
      [] OTHER -> r

LearnRanges(rng, n, cfg, known) ==
    IF WellTyped(n, cfg)
    THEN [v \in DOMAIN rng |-> IF rng[v].ok THEN Widened(rng[v], v, cfg[v], n, known) ELSE rng[v]]
    ELSE [v \in DOMAIN rng |-> IF v \in VarsOf(n) THEN [rng[v] EXCEPT !.ok = FALSE] ELSE rng[v]]
===============================================================================
