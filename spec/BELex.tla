-------------------------------- MODULE BELex --------------------------------
(* Bytes -> tokens, for expressions and for events.

   Text is a sequence of byte codes. The tokenisers follow the longest-match rule:
   the two-word keywords contain exactly one blank. A byte that starts no token
   yields the token "junk", which no grammar rule accepts.                       *)
EXTENDS BENum, TLC, SequencesExt

(* Words of the languages, spelled as byte codes. *)
WFreq == <<119, 105, 116, 104, 105, 110, 95, 102, 114, 101, 113, 117, 101, 110, 99, 121, 95, 99, 97, 112>>  \* within_frequency_cap
WSegW == <<115, 101, 103, 109, 101, 110, 116, 95, 119, 105, 116, 104, 105, 110>>  \* segment_within
WSegB == <<115, 101, 103, 109, 101, 110, 116, 95, 98, 101, 102, 111, 114, 101>>  \* segment_before
WGeo == <<103, 101, 111, 95, 119, 105, 116, 104, 105, 110, 95, 114, 97, 100, 105, 117, 115>>  \* geo_within_radius
WCont == <<99, 111, 110, 116, 97, 105, 110, 115>>  \* contains
WStart == <<115, 116, 97, 114, 116, 115, 95, 119, 105, 116, 104>>  \* starts_with
WEnd == <<101, 110, 100, 115, 95, 119, 105, 116, 104>>  \* ends_with
WIn == <<105, 110>>  \* in
WAnd == <<97, 110, 100>>  \* and
WOr == <<111, 114>>  \* or
WNot == <<110, 111, 116>>  \* not
WTrue == <<116, 114, 117, 101>>  \* true
WFalse == <<102, 97, 108, 115, 101>>  \* false
WNotIn == <<110, 111, 116, 32, 105, 110>>  \* not in
WOneOf == <<111, 110, 101, 32, 111, 102>>  \* one of
WNoneOf == <<110, 111, 110, 101, 32, 111, 102>>  \* none of
WAllOf == <<97, 108, 108, 32, 111, 102>>  \* all of
WIsNotNull == <<105, 115, 32, 110, 111, 116, 32, 110, 117, 108, 108>>  \* is not null
WIsNull == <<105, 115, 32, 110, 117, 108, 108>>  \* is null
WIsEmpty == <<105, 115, 32, 101, 109, 112, 116, 121>>  \* is empty
WNull == <<110, 117, 108, 108>>  \* null
NmSegments == <<115, 101, 103, 109, 101, 110, 116, 115, 95, 119, 105, 116, 104, 95, 116, 105, 109, 101, 115, 116, 97, 109, 112>>  \* segments_with_timestamp
NmCaps == <<102, 114, 101, 113, 117, 101, 110, 99, 121, 95, 99, 97, 112, 115>>  \* frequency_caps
NmNow == <<110, 111, 119>>  \* now
NmLat == <<108, 97, 116, 105, 116, 117, 100, 101>>  \* latitude
NmLon == <<108, 111, 110, 103, 105, 116, 117, 100, 101>>  \* longitude
KdAdvertiser == <<97, 100, 118, 101, 114, 116, 105, 115, 101, 114>>  \* advertiser
KdAdvertiserIp == <<97, 100, 118, 101, 114, 116, 105, 115, 101, 114, 58, 105, 112>>  \* advertiser:ip
CnAdvertiser == <<97, 100, 118, 101, 114, 116, 105, 115, 101, 114, 95, 105, 100>>  \* advertiser_id
KdCampaign == <<99, 97, 109, 112, 97, 105, 103, 110>>  \* campaign
KdCampaignIp == <<99, 97, 109, 112, 97, 105, 103, 110, 58, 105, 112>>  \* campaign:ip
CnCampaign == <<99, 97, 109, 112, 97, 105, 103, 110, 95, 105, 100>>  \* campaign_id
KdCampaignGroup == <<99, 97, 109, 112, 97, 105, 103, 110, 95, 103, 114, 111, 117, 112>>  \* campaign_group
KdCampaignGroupIp == <<99, 97, 109, 112, 97, 105, 103, 110, 95, 103, 114, 111, 117, 112, 58, 105, 112>>  \* campaign_group:ip
CnCampaignGroup == <<99, 97, 109, 112, 97, 105, 103, 110, 95, 103, 114, 111, 117, 112, 95, 105, 100>>  \* campaign_group_id
KdProduct == <<112, 114, 111, 100, 117, 99, 116>>  \* product
KdProductIp == <<112, 114, 111, 100, 117, 99, 116, 58, 105, 112>>  \* product:ip
CnProduct == <<112, 114, 111, 100, 117, 99, 116, 95, 105, 100>>  \* product_id
KdFlight == <<102, 108, 105, 103, 104, 116>>  \* flight
KdFlightIp == <<102, 108, 105, 103, 104, 116, 58, 105, 112>>  \* flight:ip
CnFlight == <<102, 108, 105, 103, 104, 116, 95, 105, 100>>  \* flight_id

IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
IsIdent(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 45
IsSpace(c) == c = 32 \/ c = 9 \/ c = 10
LowerByte(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerByte(s[i])]

RECURSIVE RunIdent(_, _)
RunIdent(s, p) == IF p <= Len(s) /\ IsIdent(s[p]) THEN RunIdent(s, p + 1) ELSE p - 1
RECURSIVE RunDigit(_, _)
RunDigit(s, p) == IF p <= Len(s) /\ IsDigit(s[p]) THEN RunDigit(s, p + 1) ELSE p - 1

\* position of the closing quote q, 0 if there is none; a backslash protects the next byte
RECURSIVE CloseQuote(_, _, _)
CloseQuote(s, p, q) ==
    IF p > Len(s) THEN 0
    ELSE IF s[p] = q THEN p
    ELSE IF s[p] = 92 THEN IF p + 1 > Len(s) \/ s[p + 1] = 10 THEN 0 ELSE CloseQuote(s, p + 2, q)
    ELSE CloseQuote(s, p + 1, q)

At(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
HasAt(s, p, lit) == /\ p + Len(lit) - 1 <= Len(s)
                    /\ \A i \in 1..Len(lit) : s[p + i - 1] = lit[i]
\* lit occurs at p and no identifier byte follows it
WordAt(s, p, lit) == HasAt(s, p, lit) /\ ~IsIdent(At(s, p + Len(lit)))

\* tokens are <<kind, payload>>
Tok(k) == <<k, <<>>>>

Keyword(w) ==
    CASE w = WIn -> "in"       [] w = WAnd -> "and"     [] w = WOr -> "or"
      [] w = WNot -> "not"     [] w = WTrue -> "true"   [] w = WFalse -> "false"
      [] w = WFreq -> "freq"   [] w = WSegW -> "segw"   [] w = WSegB -> "segb"
      [] w = WGeo -> "geo"     [] w = WCont -> "contains"
      [] w = WStart -> "starts" [] w = WEnd -> "ends"
      [] OTHER -> ""

\* Two-word keyword at p: <<kind, length>> or <<"", 0>>. They hold a blank, so no
\* identifier is longer and what follows them starts a new token; only "not in" gives
\* way when an identifier begins with "in", as in "not inside".
TwoWord(s, p) ==
    CASE s[p] = 110 /\ WordAt(s, p, WNotIn)  -> <<"notin", 6>>
      [] s[p] = 110 /\ HasAt(s, p, WNoneOf) -> <<"noneof", 7>>
      [] s[p] = 111 /\ HasAt(s, p, WOneOf)  -> <<"oneof", 6>>
      [] s[p] = 97  /\ HasAt(s, p, WAllOf)  -> <<"allof", 6>>
      [] s[p] = 105 /\ HasAt(s, p, WIsNotNull) -> <<"isnotnull", 11>>
      [] s[p] = 105 /\ HasAt(s, p, WIsNull)  -> <<"isnull", 7>>
      [] s[p] = 105 /\ HasAt(s, p, WIsEmpty) -> <<"isempty", 8>>
      [] OTHER -> <<"", 0>>

\* one token at p: <<token, next position>>
NumberTok(s, p) ==
    LET e == RunDigit(s, p) IN
    IF At(s, e + 1) = 46
    THEN LET e2 == RunDigit(s, e + 2)
         IN  << <<"flt", FloatOfDigits(SubSeq(s, p, e), SubSeq(s, e + 2, e2))>>, e2 + 1>>
    ELSE << <<"int", IntOfDigits(SubSeq(s, p, e))>>, e + 1>>

StringTok(s, p) ==
    LET q == CloseQuote(s, p + 1, s[p]) IN
    IF q = 0 THEN <<Tok("junk"), Len(s) + 1>>
    ELSE << <<"str", SubSeq(s, p + 1, q - 1)>>, q + 1>>

ExprTok(s, p) ==
    LET c == s[p]  d == At(s, p + 1) IN
    CASE IsAlpha(c) ->
           LET tw == TwoWord(s, p) IN
           IF tw[2] > 0 THEN <<Tok(tw[1]), p + tw[2]>>
           ELSE LET e == RunIdent(s, p)
                    w == SubSeq(s, p, e)
                    k == Keyword(w)
                IN  IF k # "" THEN <<Tok(k), e + 1>> ELSE << <<"id", w>>, e + 1>>
      [] IsDigit(c) -> NumberTok(s, p)
      [] c = 34 \/ c = 39 -> StringTok(s, p)
      [] c = 45 -> <<Tok("-"), p + 1>>
      [] c = 61 -> <<Tok("="), p + 1>>
      [] c = 60 -> IF d = 62 THEN <<Tok("<>"), p + 2>>
                   ELSE IF d = 61 THEN <<Tok("<="), p + 2>> ELSE <<Tok("<"), p + 1>>
      [] c = 62 -> IF d = 61 THEN <<Tok(">="), p + 2>> ELSE <<Tok(">"), p + 1>>
      [] c = 40 -> <<Tok("("), p + 1>>
      [] c = 41 -> <<Tok(")"), p + 1>>
      [] c = 44 -> <<Tok(","), p + 1>>
      [] c = 38 /\ d = 38 -> <<Tok("and"), p + 2>>
      [] c = 124 /\ d = 124 -> <<Tok("or"), p + 2>>
      [] OTHER -> <<Tok("junk"), p + 1>>

\* a literal keyword of the event language; no word boundary is needed
EventTok(s, p) ==
    LET c == s[p] IN
    CASE IsDigit(c) -> NumberTok(s, p)
      [] c = 34 \/ c = 39 -> StringTok(s, p)
      [] c = 45 -> <<Tok("-"), p + 1>>
      [] c = 91 -> <<Tok("["), p + 1>>
      [] c = 93 -> <<Tok("]"), p + 1>>
      [] c = 123 -> <<Tok("{"), p + 1>>
      [] c = 125 -> <<Tok("}"), p + 1>>
      [] c = 44 -> <<Tok(","), p + 1>>
      [] c = 58 -> <<Tok(":"), p + 1>>
      [] HasAt(s, p, WTrue) -> <<Tok("true"), p + 4>>
      [] HasAt(s, p, WFalse) -> <<Tok("false"), p + 5>>
      [] HasAt(s, p, WNull) -> <<Tok("null"), p + 4>>
      [] OTHER -> <<Tok("junk"), p + 1>>

(* All tokens. acc = <<tokens so far, where the next one starts>> is carried over the
   positions of the text (a fold, where a recursion would be as deep as the text long). *)
Tokens(Tk(_, _), s) ==
    FoldLeft(LAMBDA acc, p :
               IF p < acc[2] THEN acc
               ELSE IF IsSpace(s[p]) THEN <<acc[1], p + 1>>
               ELSE LET t == Tk(s, p) IN <<Append(acc[1], t[1]), t[2]>>,
             <<<<>>, 1>>, [p \in 1..Len(s) |-> p])[1]
LexExpr(s) == Tokens(ExprTok, s)
LexEvent(s) == Tokens(EventTok, s)
=============================================================================
