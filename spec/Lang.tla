-------------------------------- MODULE Lang --------------------------------
(* The query language: texts to tokens to commands.                          *)
(*                                                                           *)
(* A text is a sequence of Unicode code points.  Contents of scalars and     *)
(* names are sequences of code points too (for an integer: its canonical     *)
(* decimal spelling), so what a text spells is computed here, character by   *)
(* character, not taken from the implementation.                             *)
(*                                                                           *)
(* The 32-bit float a literal denotes comes from a table `floats' that       *)
(* accompanies the text (sequence of [lit, neg, m, e, inf]); an entry counts *)
(* only if Float32 confirms that it is the nearest float.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Float32

(***************************************************************************)
(* Characters                                                              *)
(***************************************************************************)
WhiteSpace == 9..13 \cup {32, 133, 160, 5760} \cup 8192..8202 \cup {8232, 8233, 8239, 8287, 12288}
Digits == 48..57
Upper == 65..90
LowerAz == 97..122
\* Beyond ASCII the language follows Unicode; these are the characters the models use.
\* << code point, lower case >>
OtherLetters == << <<233, <<233>>>>,       \* e acute
                   <<201, <<233>>>>,       \* E acute
                   <<223, <<223>>>>,       \* sharp s
                   <<1078, <<1078>>>>, <<1046, <<1078>>>>,   \* zhe
                   <<8490, <<107>>>>,      \* Kelvin sign: lower case is k
                   <<8491, <<229>>>>, <<229, <<229>>>>,      \* Angstrom sign
                   <<304, <<105, 775>>>>,  \* dotted capital I
                   <<20013, <<20013>>>>,   \* CJK
                   <<66560, <<66600>>>>, <<66600, <<66600>>>> >>  \* Deseret
OtherNumbers == {1635, 178, 189}           \* Arabic-Indic three, superscript two, one half
OtherSymbols == {128512, 8203, 65279, 769, 8364, 171}
LetterTable == {OtherLetters[i] : i \in DOMAIN OtherLetters}
LetterPoints == {p[1] : p \in LetterTable}

\* Latin-1 and the Russian alphabet as a whole
CapitalRange == (192..214) \cup (216..222) \cup (1040..1071)   \* lower case is 32 further on
SmallRange == {170, 181, 186} \cup (223..246) \cup (248..255) \cup (1072..1103)
Latin1Numbers == {178, 179, 185, 188, 189, 190}
Known(c) == c <= 255 \/ c \in WhiteSpace \/ c \in LetterPoints \/ c \in OtherNumbers \/ c \in OtherSymbols
            \/ c \in CapitalRange \/ c \in SmallRange
IsLetter(c) == c \in Upper \/ c \in LowerAz \/ c \in LetterPoints \/ c \in CapitalRange \/ c \in SmallRange
IsNumber(c) == c \in Digits \/ c \in OtherNumbers \/ c \in Latin1Numbers
StartsName(c) == IsLetter(c) \/ c = 95
InName(c) == IsLetter(c) \/ IsNumber(c) \/ c = 95
LowerOf(c) == IF c \in Upper \/ c \in CapitalRange THEN <<c + 32>>
              ELSE IF c \in LetterPoints THEN (CHOOSE p \in LetterTable : p[1] = c)[2]
              ELSE <<c>>

Semi == 59   Colon == 58   Comma == 44   LBrack == 91   RBrack == 93   LCurly == 123   RCurly == 125
Quote == 34  Backslash == 92  Minus == 45  Point == 46  Plus == 43
Punctuation == {Semi, Colon, Comma, LBrack, RBrack, LCurly, RCurly}
\* what may directly follow a literal or a name (an opening bracket may not)
EndsLiteral(c) == c \in WhiteSpace \/ c \in {Semi, Colon, Comma, RBrack, RCurly}

(***************************************************************************)
(* Keywords                                                                *)
(***************************************************************************)
Keywords == {
 [c |-> <<103,101,116>>, w |-> "get"], [c |-> <<115,101,116>>, w |-> "set"], [c |-> <<100,101,108>>, w |-> "del"],
 [c |-> <<101,120>>, w |-> "ex"], [c |-> <<117,112,100>>, w |-> "upd"], [c |-> <<108,116>>, w |-> "lt"],
 [c |-> <<116,114,121,95,103,101,116>>, w |-> "try_get"], [c |-> <<116,114,121,95,115,101,116>>, w |-> "try_set"],
 [c |-> <<110,111,110,101>>, w |-> "none"], [c |-> <<116,114,117,101>>, w |-> "true"], [c |-> <<102,97,108,115,101>>, w |-> "false"],
 [c |-> <<116,121,112,101>>, w |-> "type"], [c |-> <<118,115,101,116>>, w |-> "vset"], [c |-> <<118,103,101,116>>, w |-> "vget"],
 [c |-> <<118,112,111,112>>, w |-> "vpop"], [c |-> <<118,112,117,115,104>>, w |-> "vpush"], [c |-> <<118,108,101,110>>, w |-> "vlen"],
 [c |-> <<109,101,120>>, w |-> "mex"], [c |-> <<109,103,101,116>>, w |-> "mget"], [c |-> <<109,115,101,116>>, w |-> "mset"],
 [c |-> <<109,100,101,108>>, w |-> "mdel"], [c |-> <<109,108,101,110>>, w |-> "mlen"], [c |-> <<105,110,116>>, w |-> "int"],
 [c |-> <<102,108,111,97,116>>, w |-> "float"], [c |-> <<115,116,114>>, w |-> "str"], [c |-> <<98,111,111,108>>, w |-> "bool"],
 [c |-> <<118,101,99>>, w |-> "vec"], [c |-> <<109,97,112>>, w |-> "map"],
 [c |-> <<115,104,117,116,100,111,119,110>>, w |-> "shutdown"] }
SpellingOf(w) == (CHOOSE k \in Keywords : k.w = w).c
KeywordSpellings == {k.c : k \in Keywords}

(***************************************************************************)
(* Numbers                                                                 *)
(***************************************************************************)
AllDigits(s) == \A i \in DOMAIN s : s[i] \in Digits
Sub(s, a, b) == SubSeq(s, a, b)
From(s, a) == SubSeq(s, a, Len(s))

StripZeros(s) == IF \A i \in DOMAIN s : s[i] = 48 THEN <<48>>
                 ELSE From(s, CHOOSE i \in DOMAIN s : s[i] # 48 /\ \A j \in 1..(i - 1) : s[j] = 48)

\* same length: lexicographic is numeric order
LexLE(a, b) == a = b \/ LET i == CHOOSE i \in DOMAIN a : a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j] IN a[i] < b[i]
DigitsLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b))

MaxI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>   \* 9223372036854775807
MinI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>   \* 9223372036854775808

\* the canonical spelling of an integer literal, or <<>> if it is not one
IntOf(s) ==
    LET neg == s # <<>> /\ s[1] = Minus
        ds == IF neg THEN Tail(s) ELSE s
    IN IF ds = <<>> \/ ~AllDigits(ds) THEN <<>>
       ELSE LET c == StripZeros(ds) IN
            IF ~DigitsLE(c, IF neg THEN MinI64 ELSE MaxI64) THEN <<>>
            ELSE IF neg /\ c # <<48>> THEN <<Minus>> \o c ELSE c

\* value of a short digit string
Nat9(s) == FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, s)

FirstIndex(s, Is(_)) == IF \E i \in DOMAIN s : Is(s[i]) THEN CHOOSE i \in DOMAIN s : Is(s[i]) /\ \A j \in 1..(i - 1) : ~Is(s[j]) ELSE 0

BadNumber == [ok |-> FALSE]
(* [-] digits . digits [e [+-] digits], with a digit on one side of the point at least *)
FloatParts(s) ==
    LET neg == s[1] = Minus
        body == IF neg THEN Tail(s) ELSE s
        ex == FirstIndex(body, LAMBDA c : c \in {69, 101})
        man == IF ex = 0 THEN body ELSE Sub(body, 1, ex - 1)
        expo == IF ex = 0 THEN <<48>> ELSE From(body, ex + 1)
        eneg == expo # <<>> /\ expo[1] = Minus
        eds == IF expo # <<>> /\ expo[1] \in {Minus, Plus} THEN Tail(expo) ELSE expo
        pt == FirstIndex(man, LAMBDA c : c = Point)
        ip == IF pt = 0 THEN <<>> ELSE Sub(man, 1, pt - 1)
        fp == IF pt = 0 THEN <<>> ELSE From(man, pt + 1)
    IN IF pt = 0 \/ ~AllDigits(ip) \/ ~AllDigits(fp) \/ ip \o fp = <<>> \/ eds = <<>> \/ ~AllDigits(eds) THEN BadNumber
       ELSE LET e0 == StripZeros(eds)
                e == IF Len(e0) > 8 THEN 100000000 ELSE Nat9(e0)
                ds == ip \o fp
            IN [ok |-> TRUE, neg |-> neg, ds |-> [i \in DOMAIN ds |-> ds[i] - 48], x |-> (IF eneg THEN -e ELSE e) - Len(fp)]

Confirmed(p, f) == IF f.inf THEN Overflows(p.ds, p.x)
                   ELSE /\ IsFloat32(f.neg, f.m, f.e)
                        /\ ~Overflows(p.ds, p.x)
                        /\ NearestTo(p.ds, p.x, f.m, f.e)
                        /\ f.m # 0 => (f.neg = 1 <=> p.neg)

(***************************************************************************)
(* Tokens.  Lex yields [st, toks]; st is "ok", "bad", or "unknown" when    *)
(* the text uses characters this model has no table entry for.             *)
(***************************************************************************)
Kw(w) == [k |-> "kw", w |-> w]
P(c) == [k |-> "p", c |-> c]
TInt(v) == [k |-> "int", v |-> v]
TFloat(v) == [k |-> "float", v |-> v]
TStr(v) == [k |-> "str", v |-> v]
TId(v) == [k |-> "id", v |-> v]

Lexed(st, toks) == [st |-> st, toks |-> toks]

LowerAll(s) == FoldLeft(LAMBDA acc, c : acc \o LowerOf(c), <<>>, s)

NumberToken(s, floats) ==
    IF \E i \in DOMAIN s : s[i] = Point
    THEN LET p == FloatParts(s) IN
         IF ~p.ok THEN [st |-> "bad"]
         ELSE LET cand == {i \in DOMAIN floats : floats[i].lit = s /\ Confirmed(p, floats[i])} IN
              IF cand = {} THEN [st |-> "unknown"]
              ELSE LET f == floats[CHOOSE i \in cand : TRUE] IN
                   IF f.inf THEN [st |-> "bad"]
                   ELSE [st |-> "ok", tok |-> TFloat(<<IF f.m = 0 THEN 0 ELSE f.neg, f.m, f.e>>)]
    ELSE LET v == IntOf(s) IN IF v = <<>> THEN [st |-> "bad"] ELSE [st |-> "ok", tok |-> TInt(v)]

\* the token a word (anything that starts like neither punctuation nor a string) is
Word(w, floats) ==
    IF \E j \in DOMAIN w : ~Known(w[j]) THEN [st |-> "unknown"]
    ELSE IF IsNumber(w[1]) \/ w[1] = Minus THEN NumberToken(w, floats)
    ELSE IF StartsName(w[1]) /\ \A j \in DOMAIN w : InName(w[j]) THEN
        LET lw == LowerAll(w) IN
        [st |-> "ok", tok |-> IF lw \in KeywordSpellings THEN Kw((CHOOSE k \in Keywords : k.c = lw).w) ELSE TId(lw)]
    ELSE [st |-> "bad"]

(* The automaton: where it is (`at') is between tokens, in a word, in a string, *)
(* behind a backslash in a string, or behind the closing quote of a string.     *)
Scan(st, at, cur, toks) == [st |-> st, at |-> at, cur |-> cur, toks |-> toks]
Fail(q, st) == Scan(st, "between", <<>>, q.toks)

Start(toks, c) ==
    IF c \in WhiteSpace THEN Scan("ok", "between", <<>>, toks)
    ELSE IF c \in Punctuation THEN Scan("ok", "between", <<>>, Append(toks, P(c)))
    ELSE IF c = Quote THEN Scan("ok", "string", <<>>, toks)
    ELSE Scan("ok", "word", <<c>>, toks)

\* the word that has just ended
EndWord(q, floats) == LET x == Word(q.cur, floats) IN
                      IF x.st = "ok" THEN Scan("ok", "between", <<>>, Append(q.toks, x.tok)) ELSE Fail(q, x.st)

Step(q, c, floats) ==
    IF q.st # "ok" THEN q
    ELSE CASE q.at = "between" -> Start(q.toks, c)
           [] q.at = "word" -> IF ~EndsLiteral(c) THEN [q EXCEPT !.cur = Append(@, c)]
                               ELSE LET e == EndWord(q, floats) IN IF e.st = "ok" THEN Start(e.toks, c) ELSE e
           [] q.at = "string" -> IF c = Quote THEN [q EXCEPT !.at = "closed"]
                                 ELSE IF c = Backslash THEN [q EXCEPT !.at = "escape"]
                                 ELSE [q EXCEPT !.cur = Append(@, c)]
           [] q.at = "escape" -> IF c \in {Backslash, Quote} THEN Scan("ok", "string", Append(q.cur, c), q.toks)
                                 ELSE IF c = 110 THEN Scan("ok", "string", Append(q.cur, 10), q.toks)
                                 ELSE IF c = 114 THEN Scan("ok", "string", Append(q.cur, 13), q.toks)
                                 ELSE IF c = 116 THEN Scan("ok", "string", Append(q.cur, 9), q.toks)
                                 ELSE Fail(q, "bad")
           [] q.at = "closed" -> IF EndsLiteral(c) THEN Start(Append(q.toks, TStr(q.cur)), c) ELSE Fail(q, "bad")

Finish(q, floats) ==
    IF q.st # "ok" THEN q
    ELSE CASE q.at = "between" -> q
           [] q.at = "word" -> EndWord(q, floats)
           [] q.at = "closed" -> Scan("ok", "between", <<>>, Append(q.toks, TStr(q.cur)))
           [] OTHER -> Fail(q, "bad")

Lex(t, floats) ==
    LET step(q, c) == Step(q, c, floats)
        q == Finish(FoldLeft(step, Scan("ok", "between", <<>>, <<>>), t), floats)
    IN Lexed(q.st, q.toks)

(***************************************************************************)
(* Grammar                                                                 *)
(*   query    = { ";" } { command { ";" } }                                *)
(*   command  = ("get"|"try_get"|"ex"|"del"|"type"|"vpop"|"vlen"|"mlen") name            *)
(*            | ("set"|"try_set"|"upd") name [ value [ lifetime ] ]        *)
(*            | "vget" name index | "vset" name index scalar | "vpush" name scalar       *)
(*            | ("mget"|"mdel"|"mex") name mapkey | "mset" name mapkey scalar            *)
(*            | "shutdown"                                                 *)
(*   value    = scalar | type | type "[" [scalar {"," scalar}] "]"         *)
(*            | keytype type [ "{" [scalar ":" scalar {"," ...}] "}" ]     *)
(*   (a bare `type' ends its command; elements must be of the stated types;*)
(*   after set/try_set/upd with a value, what follows is a lifetime or the *)
(*   end of the command)                                                   *)
(* Results: [ok, x, n]: parsed x, next token is n; or [ok, more]: refused, *)
(* `more' if only because the tokens end here.                             *)
(***************************************************************************)
Bad(more) == [ok |-> FALSE, more |-> more]
Got(x, n) == [ok |-> TRUE, x |-> x, n |-> n]
Scalar(t, v) == [t |-> t, v |-> v]
TrueText == <<116,114,117,101>>
FalseText == <<102,97,108,115,101>>

IsP(ts, i, c) == i <= Len(ts) /\ ts[i].k = "p" /\ ts[i].c = c
IsKw(ts, i, ws) == i <= Len(ts) /\ ts[i].k = "kw" /\ ts[i].w \in ws
AtEnd(ts, i) == i > Len(ts)
StmtEnd(ts, i) == AtEnd(ts, i) \/ IsP(ts, i, Semi)
TypeWords == {"int", "float", "str", "bool"}
KeyWords == {"int", "str"}

Name(ts, i) == IF AtEnd(ts, i) THEN Bad(TRUE) ELSE IF ts[i].k = "id" THEN Got(ts[i].v, i + 1) ELSE Bad(FALSE)

ScalarAt(ts, i) ==
    IF AtEnd(ts, i) THEN Bad(TRUE)
    ELSE CASE ts[i].k \in {"int", "float", "str"} -> Got(Scalar(ts[i].k, ts[i].v), i + 1)
           [] IsKw(ts, i, {"true"}) -> Got(Scalar("bool", TrueText), i + 1)
           [] IsKw(ts, i, {"false"}) -> Got(Scalar("bool", FalseText), i + 1)
           [] OTHER -> Bad(FALSE)

MapKeyAt(ts, i) ==
    IF AtEnd(ts, i) THEN Bad(TRUE)
    ELSE IF ts[i].k \in {"int", "str"} THEN Got(Scalar(ts[i].k, ts[i].v), i + 1) ELSE Bad(FALSE)

\* an index or a lifetime: a non-negative integer, as digits
CountAt(ts, i) ==
    IF AtEnd(ts, i) THEN Bad(TRUE)
    ELSE IF ts[i].k = "int" /\ ts[i].v[1] # Minus THEN Got(ts[i].v, i + 1) ELSE Bad(FALSE)

RECURSIVE VecElems(_, _, _, _)
VecElems(ts, i, et, acc) ==
    LET e == ScalarAt(ts, i) IN
    IF ~e.ok THEN e
    ELSE IF e.x.t # et THEN Bad(FALSE)
    ELSE IF IsP(ts, e.n, RBrack) THEN Got([t |-> "vec", et |-> et, es |-> Append(acc, e.x)], e.n + 1)
    ELSE IF IsP(ts, e.n, Comma) THEN VecElems(ts, e.n + 1, et, Append(acc, e.x))
    ELSE Bad(AtEnd(ts, e.n))

RECURSIVE MapElems(_, _, _, _, _)
MapElems(ts, i, kt, et, acc) ==
    LET k == ScalarAt(ts, i) IN
    IF ~k.ok THEN k
    ELSE IF ~IsP(ts, k.n, Colon) THEN Bad(AtEnd(ts, k.n))
    ELSE LET e == ScalarAt(ts, k.n + 1) IN
    IF ~e.ok THEN e
    ELSE IF k.x.t # kt \/ e.x.t # et THEN Bad(FALSE)
    ELSE LET m == {p \in acc : p[1] # k.x} \cup {<<k.x, e.x>>} IN
    IF IsP(ts, e.n, RCurly) THEN Got([t |-> "map", kt |-> kt, et |-> et, m |-> m], e.n + 1)
    ELSE IF IsP(ts, e.n, Comma) THEN MapElems(ts, e.n + 1, kt, et, m)
    ELSE Bad(AtEnd(ts, e.n))

CollectionAt(ts, i) ==
    LET t1 == ts[i].w IN
    IF StmtEnd(ts, i + 1) THEN Got([t |-> "vec", et |-> t1, es |-> <<>>], i + 1)
    ELSE IF IsKw(ts, i + 1, TypeWords) THEN
        LET t2 == ts[i + 1].w IN
        IF t1 \notin KeyWords THEN Bad(FALSE)
        ELSE IF ~IsP(ts, i + 2, LCurly) THEN Got([t |-> "map", kt |-> t1, et |-> t2, m |-> {}], i + 2)
        ELSE IF IsP(ts, i + 3, RCurly) THEN Got([t |-> "map", kt |-> t1, et |-> t2, m |-> {}], i + 4)
        ELSE MapElems(ts, i + 3, t1, t2, {})
    ELSE IF IsP(ts, i + 1, LBrack) THEN
        IF IsP(ts, i + 2, RBrack) THEN Got([t |-> "vec", et |-> t1, es |-> <<>>], i + 3)
        ELSE VecElems(ts, i + 2, t1, <<>>)
    ELSE Bad(FALSE)

NullValue == [t |-> "null", v |-> <<>>]
NoLifetime == <<>>
ValueAt(ts, i) ==
    IF StmtEnd(ts, i) THEN Got(NullValue, i)
    ELSE IF IsKw(ts, i, TypeWords) THEN CollectionAt(ts, i) ELSE ScalarAt(ts, i)
LifeAt(ts, i) == IF StmtEnd(ts, i) THEN Got(NoLifetime, i) ELSE CountAt(ts, i)

OpOf(w) == IF w = "try_get" THEN "tryget" ELSE IF w = "try_set" THEN "tryset" ELSE w

CommandAt(ts, i) ==
    IF ts[i].k # "kw" THEN Bad(FALSE)
    ELSE LET w == ts[i].w
             nm == Name(ts, i + 1)
    IN CASE w \in {"get", "try_get", "ex", "del", "type", "vpop", "vlen", "mlen"} ->
              IF nm.ok THEN Got([op |-> OpOf(w), key |-> nm.x], nm.n) ELSE nm
         [] w \in {"set", "try_set", "upd"} ->
              IF ~nm.ok THEN nm ELSE
              LET v == ValueAt(ts, nm.n) IN IF ~v.ok THEN v ELSE
              LET l == LifeAt(ts, v.n) IN IF ~l.ok THEN l
              ELSE Got([op |-> OpOf(w), key |-> nm.x, val |-> v.x, life |-> l.x], l.n)
         [] w = "vget" ->
              IF ~nm.ok THEN nm ELSE
              LET ix == CountAt(ts, nm.n) IN IF ~ix.ok THEN ix ELSE Got([op |-> w, key |-> nm.x, i |-> ix.x], ix.n)
         [] w = "vset" ->
              IF ~nm.ok THEN nm ELSE
              LET ix == CountAt(ts, nm.n) IN IF ~ix.ok THEN ix ELSE
              LET v == ScalarAt(ts, ix.n) IN IF ~v.ok THEN v ELSE Got([op |-> w, key |-> nm.x, i |-> ix.x, val |-> v.x], v.n)
         [] w = "vpush" ->
              IF ~nm.ok THEN nm ELSE
              LET v == ScalarAt(ts, nm.n) IN IF ~v.ok THEN v ELSE Got([op |-> w, key |-> nm.x, val |-> v.x], v.n)
         [] w \in {"mget", "mdel", "mex"} ->
              IF ~nm.ok THEN nm ELSE
              LET mk == MapKeyAt(ts, nm.n) IN IF ~mk.ok THEN mk ELSE Got([op |-> w, key |-> nm.x, mk |-> mk.x], mk.n)
         [] w = "mset" ->
              IF ~nm.ok THEN nm ELSE
              LET mk == MapKeyAt(ts, nm.n) IN IF ~mk.ok THEN mk ELSE
              LET v == ScalarAt(ts, mk.n) IN IF ~v.ok THEN v ELSE Got([op |-> w, key |-> nm.x, mk |-> mk.x, val |-> v.x], v.n)
         [] w = "shutdown" -> Got([op |-> w], i + 1)
         [] OTHER -> Bad(FALSE)

\* [ok, cs] or [ok, more]
RECURSIVE CommandsFrom(_, _, _)
CommandsFrom(ts, i, acc) ==
    IF AtEnd(ts, i) THEN [ok |-> TRUE, cs |-> acc]
    ELSE IF IsP(ts, i, Semi) THEN CommandsFrom(ts, i + 1, acc)
    ELSE LET c == CommandAt(ts, i) IN IF c.ok THEN CommandsFrom(ts, c.n, Append(acc, c.x)) ELSE c
Parse(ts) == CommandsFrom(ts, 1, <<>>)

(***************************************************************************)
(* A text: [st |-> "ok", cs], "bad", or "unknown"                          *)
(***************************************************************************)
Understand(t, floats) ==
    LET lx == TLCEval(Lex(t, floats)) IN
    IF lx.st # "ok" THEN [st |-> lx.st]
    ELSE LET p == Parse(lx.toks) IN IF p.ok THEN [st |-> "ok", cs |-> p.cs] ELSE [st |-> "bad"]
=============================================================================
