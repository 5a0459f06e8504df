------------------------------ MODULE JsonText ------------------------------
(* UTF-8 and JSON (RFC 8259), byte by byte: what a request body says, and    *)
(* what a reply's payload says.  Strings are sequences of code points,       *)
(* numbers are kept as their spelling.                                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC

(***************************************************************************)
(* UTF-8.  [ok, cps]                                                       *)
(***************************************************************************)
U8(ok, need, lo, hi, acc, cps) == [ok |-> ok, need |-> need, lo |-> lo, hi |-> hi, acc |-> acc, cps |-> cps]

U8Step(q, b) ==
    IF ~q.ok THEN q
    ELSE IF q.need = 0 THEN
        CASE b < 128 -> [q EXCEPT !.cps = Append(@, b)]
          [] b \in 194..223 -> U8(TRUE, 1, 128, 191, b - 192, q.cps)
          [] b = 224 -> U8(TRUE, 2, 160, 191, b - 224, q.cps)
          [] b \in (225..236) \cup (238..239) -> U8(TRUE, 2, 128, 191, b - 224, q.cps)
          [] b = 237 -> U8(TRUE, 2, 128, 159, b - 224, q.cps)
          [] b = 240 -> U8(TRUE, 3, 144, 191, b - 240, q.cps)
          [] b \in 241..243 -> U8(TRUE, 3, 128, 191, b - 240, q.cps)
          [] b = 244 -> U8(TRUE, 3, 128, 143, b - 240, q.cps)
          [] OTHER -> [q EXCEPT !.ok = FALSE]
    ELSE IF b < q.lo \/ b > q.hi THEN [q EXCEPT !.ok = FALSE]
    ELSE LET a == q.acc * 64 + (b - 128) IN
         IF q.need = 1 THEN U8(TRUE, 0, 128, 191, 0, Append(q.cps, a))
         ELSE U8(TRUE, q.need - 1, 128, 191, a, q.cps)

Utf8(bytes) ==
    LET q == FoldLeft(U8Step, U8(TRUE, 0, 128, 191, 0, <<>>), bytes)
    IN [ok |-> q.ok /\ q.need = 0, cps |-> q.cps]

(***************************************************************************)
(* JSON values: [j: "s" string, "n" number, "b" boolean, "z" null,          *)
(* "a" array, "o" object (sequence of [k, x], in order)].                  *)
(***************************************************************************)
JStr(s) == [j |-> "s", s |-> s]
JNum(s) == [j |-> "n", s |-> s]
JBool(b) == [j |-> "b", b |-> b]
JNull == [j |-> "z"]
JArr(es) == [j |-> "a", es |-> es]
JObj(ps) == [j |-> "o", ps |-> ps]

JDigits == 48..57
JSpace == {9, 10, 13, 32}
JSign == {43, 45}
NumChars == JDigits \cup JSign \cup {46, 69, 101}
MaxDepth == 100        \* deeper texts are not judged

AllIn(s, S) == \A i \in DOMAIN s : s[i] \in S
FirstOf(s, S) == IF \E i \in DOMAIN s : s[i] \in S
                 THEN CHOOSE i \in DOMAIN s : s[i] \in S /\ \A k \in 1..(i - 1) : s[k] \notin S
                 ELSE Len(s) + 1

\* - (0 | [1-9][0-9]*) [. digits] [e [+-] digits]
GoodNumber(s0) ==
    LET s == IF s0[1] = 45 THEN Tail(s0) ELSE s0
        e == FirstOf(s, {69, 101})
        man == SubSeq(s, 1, e - 1)
        ex == SubSeq(s, e + 1, Len(s))
        eds == IF ex # <<>> /\ ex[1] \in JSign THEN Tail(ex) ELSE ex
        p == FirstOf(man, {46})
        ip == SubSeq(man, 1, p - 1)
        fp == SubSeq(man, p + 1, Len(man))
    IN /\ ip # <<>> /\ AllIn(ip, JDigits) /\ (ip[1] = 48 => Len(ip) = 1)
       /\ p <= Len(man) => fp # <<>> /\ AllIn(fp, JDigits)
       /\ e <= Len(s) => eds # <<>> /\ AllIn(eds, JDigits)
\* might be out of the range of a double
FarNumber(s) == Len(s) > 300 \/ LET e == FirstOf(s, {69, 101}) IN e <= Len(s) /\ Len(s) - e > 3

(* The automaton.  at: "value" (a value, or "]" if `can' is set), "key" (a   *)
(* member name, or "}" if `can'), "colon", "after", "str", "esc", "hex",     *)
(* "num", "word", "end".  stack: the open arrays and objects; cur: the       *)
(* string, number or word being read; iskey: it is a member name.            *)
J0 == [st |-> "ok", at |-> "value", can |-> FALSE, stack |-> <<>>, cur |-> <<>>, iskey |-> FALSE, hex |-> <<>>, high |-> 0, out |-> JNull]
JBad(q) == [q EXCEPT !.st = "bad"]
JOdd(q) == [q EXCEPT !.st = "unknown"]
Top(q) == q.stack[Len(q.stack)]
PushF(q, f) == [q EXCEPT !.stack = Append(@, f)]
Pop(q) == [q EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
SetTop(q, f) == [q EXCEPT !.stack[Len(q.stack)] = f]

\* a value is complete
Give(q, x) ==
    IF q.stack = <<>> THEN [q EXCEPT !.out = x, !.at = "end", !.cur = <<>>]
    ELSE LET t == Top(q)
             t2 == IF t.f = "a" THEN [t EXCEPT !.es = Append(@, x)] ELSE [t EXCEPT !.ps = Append(@, [k |-> t.key, x |-> x])]
         IN [SetTop(q, t2) EXCEPT !.at = "after", !.cur = <<>>]

WordValue(w) == CASE w = <<116, 114, 117, 101>> -> JBool(TRUE)
                  [] w = <<102, 97, 108, 115, 101>> -> JBool(FALSE)
                  [] w = <<110, 117, 108, 108>> -> JNull
                  [] OTHER -> [j |-> "none"]

Close(q, f) == LET t == Top(q) IN Give(Pop(q), IF f = "a" THEN JArr(t.es) ELSE JObj(t.ps))

AtValue(q, c) ==
    CASE c \in JSpace -> q
      [] c = 93 -> IF q.can THEN Close(q, "a") ELSE JBad(q)
      [] c = 34 -> [q EXCEPT !.at = "str", !.cur = <<>>, !.iskey = FALSE, !.high = 0]
      [] c = 91 -> IF Len(q.stack) >= MaxDepth THEN JOdd(q) ELSE [PushF(q, [f |-> "a", es |-> <<>>]) EXCEPT !.can = TRUE]
      [] c = 123 -> IF Len(q.stack) >= MaxDepth THEN JOdd(q) ELSE [PushF(q, [f |-> "o", ps |-> <<>>, key |-> <<>>]) EXCEPT !.at = "key", !.can = TRUE]
      [] c = 45 \/ c \in JDigits -> [q EXCEPT !.at = "num", !.cur = <<c>>]
      [] c \in {116, 102, 110} -> [q EXCEPT !.at = "word", !.cur = <<c>>]
      [] OTHER -> JBad(q)

AfterValue(q, c) ==
    IF c \in JSpace THEN q
    ELSE LET t == Top(q) IN
         CASE t.f = "a" /\ c = 44 -> [q EXCEPT !.at = "value", !.can = FALSE]
           [] t.f = "a" /\ c = 93 -> Close(q, "a")
           [] t.f = "o" /\ c = 44 -> [q EXCEPT !.at = "key", !.can = FALSE]
           [] t.f = "o" /\ c = 125 -> Close(q, "o")
           [] OTHER -> JBad(q)

EndStr(q) ==
    IF q.high # 0 THEN JBad(q)
    ELSE IF q.iskey THEN [SetTop(q, [Top(q) EXCEPT !.key = q.cur]) EXCEPT !.at = "colon", !.cur = <<>>]
    ELSE Give(q, JStr(q.cur))
StrChar(q, c) == IF q.high # 0 THEN JBad(q) ELSE [q EXCEPT !.cur = Append(@, c), !.at = "str"]

HexVal(c) == CASE c \in JDigits -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
Escape(q, c) ==
    CASE c \in {34, 92, 47} -> StrChar(q, c)
      [] c = 98 -> StrChar(q, 8)
      [] c = 102 -> StrChar(q, 12)
      [] c = 110 -> StrChar(q, 10)
      [] c = 114 -> StrChar(q, 13)
      [] c = 116 -> StrChar(q, 9)
      [] c = 117 -> [q EXCEPT !.at = "hex", !.hex = <<>>]
      [] OTHER -> JBad(q)
Hex(q, c) ==
    IF HexVal(c) < 0 THEN JBad(q)
    ELSE LET h == Append(q.hex, HexVal(c)) IN
         IF Len(h) < 4 THEN [q EXCEPT !.hex = h]
         ELSE LET u == ((h[1] * 16 + h[2]) * 16 + h[3]) * 16 + h[4] IN
              CASE u \in 55296..56319 -> IF q.high # 0 THEN JBad(q) ELSE [q EXCEPT !.high = u, !.at = "str"]
                [] u \in 56320..57343 -> IF q.high = 0 THEN JBad(q)
                                         ELSE [q EXCEPT !.cur = Append(@, 65536 + (q.high - 55296) * 1024 + (u - 56320)), !.high = 0, !.at = "str"]
                [] OTHER -> StrChar(q, u)

\* the number or word that has just ended
EndScalar(q) ==
    IF q.at = "num" THEN IF ~GoodNumber(q.cur) THEN JBad(q)
                         ELSE IF FarNumber(q.cur) THEN JOdd(q) ELSE Give(q, JNum(q.cur))
    ELSE LET w == WordValue(q.cur) IN IF w.j = "none" THEN JBad(q) ELSE Give(q, w)

Between(q, c) ==
    CASE q.at = "value" -> AtValue(q, c)
      [] q.at = "key" -> CASE c \in JSpace -> q
                           [] c = 125 -> IF q.can THEN Close(q, "o") ELSE JBad(q)
                           [] c = 34 -> [q EXCEPT !.at = "str", !.cur = <<>>, !.iskey = TRUE, !.high = 0]
                           [] OTHER -> JBad(q)
      [] q.at = "colon" -> IF c \in JSpace THEN q ELSE IF c = 58 THEN [q EXCEPT !.at = "value", !.can = FALSE] ELSE JBad(q)
      [] q.at = "after" -> AfterValue(q, c)
      [] q.at = "end" -> IF c \in JSpace THEN q ELSE JBad(q)

JStep(q, c) ==
    IF q.st # "ok" THEN q
    ELSE CASE q.at = "str" -> CASE c = 34 -> EndStr(q)
                                [] c = 92 -> [q EXCEPT !.at = "esc"]
                                [] c < 32 -> JBad(q)
                                [] OTHER -> StrChar(q, c)
           [] q.at = "esc" -> IF q.high # 0 /\ c # 117 THEN JBad(q) ELSE Escape(q, c)
           [] q.at = "hex" -> Hex(q, c)
           [] q.at = "num" -> IF c \in NumChars THEN [q EXCEPT !.cur = Append(@, c)]
                              ELSE LET e == EndScalar(q) IN IF e.st = "ok" THEN Between(e, c) ELSE e
           [] q.at = "word" -> IF c \in 97..122 THEN [q EXCEPT !.cur = Append(@, c)]
                               ELSE LET e == EndScalar(q) IN IF e.st = "ok" THEN Between(e, c) ELSE e
           [] OTHER -> Between(q, c)

\* [st |-> "ok", x] | [st |-> "bad"] | [st |-> "unknown"]
ParseJson(cps) ==
    LET q1 == FoldLeft(JStep, J0, cps)
        q == IF q1.st = "ok" /\ q1.at \in {"num", "word"} THEN EndScalar(q1) ELSE q1
    IN IF q.st # "ok" THEN [st |-> q.st]
       ELSE IF q.at = "end" THEN [st |-> "ok", x |-> q.out]
       ELSE [st |-> "bad"]

\* the value of a member; with a repeated name, the last one; [j |-> "none"] if there is none
Member(o, k) ==
    LET is == {i \in DOMAIN o.ps : o.ps[i].k = k}
    IN IF is = {} THEN [j |-> "none"] ELSE o.ps[CHOOSE i \in is : \A h \in is : h <= i].x
=============================================================================
