-------------------------------- MODULE Http --------------------------------
(* How a request is understood from the bytes a connection delivers          *)
(* (RFC 9112 as far as this server goes) and what a reply has to look like.  *)
(*                                                                           *)
(* A reader is a function of the bytes received so far and of whether the    *)
(* client has closed its side: how they were split into packets and reads    *)
(* cannot matter.  Scan folds the reader over the bytes; Meaning gives the   *)
(* set of outcomes that are allowed.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, JsonText

LF == 10   CR == 13   SP == 32   HT == 9   COLON == 58
TokenChars == (48..57) \cup (65..90) \cup (97..122) \cup {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
TargetChars == 33..126
ValueChars == {HT} \cup (32..126) \cup (128..255)
Lower(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
POST == <<80, 79, 83, 84>>
Http10 == <<72, 84, 84, 80, 47, 49, 46, 48>>
Http11 == <<72, 84, 84, 80, 47, 49, 46, 49>>
ContentLength == <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>
TransferEncoding == <<116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103>>
Username == <<85, 115, 101, 114, 110, 97, 109, 101>>
QueryName == <<113, 117, 101, 114, 121>>
MaxHeaders == 32

(***************************************************************************)
(* Reader                                                                  *)
(*   at: "method", "target", "version", "name", "value", "body", "junk"    *)
(*   odd: the head is not one this specification defines                   *)
(*   need: body bytes declared; len: how; n: bytes seen; from: those that  *)
(*   belong to the head                                                    *)
(***************************************************************************)
R0 == [at |-> "method", cr |-> FALSE, odd |-> FALSE, method |-> <<>>, cur |-> <<>>, name |-> <<>>, hs |-> <<>>,
       line |-> 0, need |-> 0, len |-> "none", n |-> 0, from |-> 0]

Trim(s) == LET good == {i \in DOMAIN s : s[i] \notin {SP, HT}} IN
           IF good = {} THEN <<>>
           ELSE LET lo == CHOOSE i \in good : \A j \in good : i <= j
                    hi == CHOOSE i \in good : \A j \in good : j <= i IN SubSeq(s, lo, hi)

\* a header line is complete
AddHeader(q) == [q EXCEPT !.hs = Append(@, <<q.name, Trim(q.cur)>>), !.at = "name", !.name = <<>>, !.cur = <<>>, !.line = 0]

Named(hs, n) == {i \in DOMAIN hs : Lower(hs[i][1]) = n}
First(S) == CHOOSE i \in S : \A j \in S : i <= j

DecDigits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57
NoZeros(s) == IF \A i \in DOMAIN s : s[i] = 48 THEN <<48>>
              ELSE SubSeq(s, CHOOSE i \in DOMAIN s : s[i] # 48 /\ \A j \in 1..(i - 1) : s[j] = 48, Len(s))
MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
LessEq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/
                LET i == CHOOSE i \in DOMAIN a : a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j] IN a[i] < b[i]))
SmallNum(s) == FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, s)

\* the blank line has come: what the head says about the body
HeadDone(q0) ==
    LET q == [q0 EXCEPT !.from = q0.n]
        is == Named(q.hs, ContentLength)
        vals == {q.hs[i][2] : i \in is}
        v == q.hs[First(is)][2]
        d == NoZeros(v)
    IN CASE q.odd \/ Len(q.hs) > MaxHeaders \/ Cardinality(vals) > 1 \/ Named(q.hs, TransferEncoding) # {}
              -> [q EXCEPT !.at = "junk", !.len = IF Len(q.hs) > MaxHeaders /\ ~q.odd THEN "toomany" ELSE "odd"]
         [] is = {} -> [q EXCEPT !.at = "body", !.len = "none", !.need = 0]
         [] ~DecDigits(v) -> [q EXCEPT !.at = "body", !.need = 0,
                                       !.len = IF v # <<>> /\ v[1] = 43 /\ DecDigits(Tail(v)) THEN "odd" ELSE "invalid"]
         [] ~LessEq(d, MaxU64) -> [q EXCEPT !.at = "body", !.len = "invalid", !.need = 0]
         [] OTHER -> [q EXCEPT !.at = "body", !.len = "some", !.need = IF Len(d) > 8 THEN 2000000000 ELSE SmallNum(d)]

MakeOdd(q) == [q EXCEPT !.odd = TRUE]

\* one byte of a head this specification does not define: look only for the blank line
OddStep(q, b) == CASE b = LF -> IF q.line = 0 THEN HeadDone(q) ELSE [q EXCEPT !.line = 0]
                   [] b = CR -> q
                   [] OTHER -> [q EXCEPT !.line = 1]

EndLine(q) ==
    CASE q.at = "version" -> IF q.cur \in {Http10, Http11} THEN [q EXCEPT !.at = "name", !.cur = <<>>, !.line = 0] ELSE OddStep(MakeOdd(q), LF)
      [] q.at = "value" -> AddHeader(q)
      [] q.at = "name" -> IF q.name = <<>> THEN HeadDone(q) ELSE OddStep(MakeOdd(q), LF)
      [] OTHER -> OddStep(MakeOdd(q), LF)

HeadStep(q, b) ==
    IF q.odd THEN OddStep(q, b)
    ELSE LET p == [q EXCEPT !.line = IF b \in {CR, LF} THEN @ ELSE 1] IN
    IF q.cr THEN IF b = LF THEN EndLine([q EXCEPT !.cr = FALSE]) ELSE OddStep(MakeOdd(q), b)
    ELSE IF b = LF THEN EndLine(q)
    ELSE IF b = CR THEN IF q.at \in {"version", "value"} \/ (q.at = "name" /\ q.name = <<>>) THEN [q EXCEPT !.cr = TRUE] ELSE OddStep(MakeOdd(q), b)
    ELSE CASE q.at = "method" -> IF b \in TokenChars THEN [p EXCEPT !.method = Append(@, b)]
                                 ELSE IF b = SP /\ q.method # <<>> THEN [p EXCEPT !.at = "target"] ELSE OddStep(MakeOdd(p), b)
           [] q.at = "target" -> IF b \in TargetChars THEN [p EXCEPT !.cur = <<b>>]
                                 ELSE IF b = SP /\ q.cur # <<>> THEN [p EXCEPT !.at = "version", !.cur = <<>>] ELSE OddStep(MakeOdd(p), b)
           [] q.at = "version" -> [p EXCEPT !.cur = Append(@, b)]
           [] q.at = "name" -> IF b \in TokenChars THEN [p EXCEPT !.name = Append(@, b)]
                               ELSE IF b = COLON /\ q.name # <<>> THEN [p EXCEPT !.at = "value", !.cur = <<>>] ELSE OddStep(MakeOdd(p), b)
           [] q.at = "value" -> IF b \in ValueChars THEN [p EXCEPT !.cur = Append(@, b)] ELSE OddStep(MakeOdd(p), b)

ScanStep(q, b) == IF q.at \in {"junk", "body"} THEN [q EXCEPT !.n = @ + 1] ELSE HeadStep([q EXCEPT !.n = @ + 1], b)
ScanBytes(bytes) == FoldLeft(ScanStep, R0, bytes)

(***************************************************************************)
(* What a body says: the query, as code points                             *)
(***************************************************************************)
BodyMeaning(body) ==
    LET u == Utf8(body) IN
    IF ~u.ok THEN [st |-> "unknown"]            \* not JSON at all; see DESIGN
    ELSE LET p == ParseJson(u.cps) IN
         IF p.st # "ok" THEN [st |-> p.st]
         ELSE IF p.x.j # "o" THEN [st |-> "bad"]
         ELSE LET m == Member(p.x, QueryName) IN
              IF m.j = "s" THEN [st |-> "ok", q |-> m.s] ELSE [st |-> "bad"]

(* exactly `need' bytes belong to the body; what follows them is not looked at *)
(***************************************************************************)
(* Outcome classes.  A reader that has got these bytes                     *)
(*   "wait"  has to wait for more (and, once the client closes, to report  *)
(*           an error)                                                     *)
(*   "bad"   has to report a bad request                                   *)
(*   "error" has to report an error                                        *)
(*   "query" has to hand on exactly this query                             *)
(*   "any"   may do any of these, now or later, but not crash, and not     *)
(*           wait for ever once the client has closed                      *)
(***************************************************************************)
Complete(q) == q.at = "body" /\ q.n - q.from >= q.need
Body(q, bytes) == SubSeq(bytes, q.from + 1, q.from + q.need)
Meaning(q, bytes) ==
    CASE q.at = "junk" /\ q.len = "toomany" -> [st |-> "error"]
      [] q.at = "junk" -> [st |-> "any"]
      [] q.at = "body" /\ q.len = "invalid" -> [st |-> "bad"]
      [] q.at = "body" /\ q.len = "odd" -> [st |-> "any"]
      [] Complete(q) -> IF q.method # POST THEN [st |-> "bad"]
                        ELSE LET b == BodyMeaning(Body(q, bytes)) IN
                             CASE b.st = "ok" -> [st |-> "query", q |-> b.q]
                               [] b.st = "bad" -> [st |-> "bad"]
                               [] OTHER -> [st |-> "any"]
      [] q.odd \/ Len(q.hs) >= MaxHeaders -> [st |-> "any"]
      \* that the method is not POST is known before the body is complete
      [] q.at = "body" /\ q.method # POST -> [st |-> "waitbad"]
      [] OTHER -> [st |-> "wait"]

\* outcome o ([k |-> "query", q] | [k |-> "err", e] | [k |-> "wait"]) of a reader that
\* has got bytes with meaning m, the client having closed (or not)
AllowedBy(m, closed, o) ==
    CASE m.st = "query" -> o.k = "query" /\ o.q = m.q
      [] m.st = "bad" -> o.k = "err" /\ o.e = "RequestError"
      [] m.st = "error" -> o.k = "err"
      [] m.st = "wait" -> IF closed THEN o.k = "err" ELSE o.k = "wait"
      [] m.st = "waitbad" -> IF closed THEN o.k = "err" ELSE o.k = "wait" \/ (o.k = "err" /\ o.e = "RequestError")
      [] m.st = "any" -> o.k \in {"query", "err"} \/ (o.k = "wait" /\ ~closed)

\* the headers an authentication service sees: at least every header whose name occurs once, unchanged
HeadersSeen(q, seen) ==   \* seen: sequence of <<name, value>>
    \A i \in DOMAIN q.hs :
        LET n == q.hs[i][1] IN
        (Cardinality(Named(q.hs, Lower(n))) = 1 /\ \A j \in DOMAIN q.hs[i][2] : q.hs[i][2][j] < 128)
          => \E k \in DOMAIN seen : Lower(seen[k][1]) = Lower(n) /\ seen[k][2] = q.hs[i][2]
             /\ \A h \in DOMAIN seen : Lower(seen[h][1]) = Lower(n) => seen[h][2] = q.hs[i][2]

(***************************************************************************)
(* Replies                                                                 *)
(***************************************************************************)
StatusOf(kind) ==
    CASE kind = "ok" -> <<50, 48, 48>>
      [] kind \in {"KeyError", "IndexError", "TypeError", "ParseError", "TokenizationError"} -> <<52, 50, 50>>
      [] kind = "AuthorizationError" -> <<52, 48, 49>>
      [] kind = "AuthenticationError" -> <<52, 48, 51>>
      [] kind = "RequestError" -> <<52, 48, 48>>
      [] OTHER -> <<53, 48, 48>>

(* The head of a reply: HTTP/1.1 SP status SP text, header lines, blank     *)
(* line.  [ok, status, hs, at] where payload starts at index `at'.          *)
Rep0 == [ok |-> TRUE, done |-> FALSE, lines |-> <<>>, cur |-> <<>>, at |-> 0, i |-> 0]
RepStep(q, b) ==
    IF q.done THEN q
    ELSE IF b = LF THEN
        LET l == IF q.cur # <<>> /\ q.cur[Len(q.cur)] = CR THEN SubSeq(q.cur, 1, Len(q.cur) - 1) ELSE q.cur
        IN IF l = <<>> THEN [q EXCEPT !.done = TRUE, !.at = q.i + 2]
           ELSE [q EXCEPT !.lines = Append(@, l), !.cur = <<>>, !.i = @ + 1]
    ELSE [q EXCEPT !.cur = Append(@, b), !.i = @ + 1]

HeaderOf(l) == LET c == FirstOf(l, {COLON}) IN <<Lower(SubSeq(l, 1, c - 1)), Trim(SubSeq(l, c + 1, Len(l)))>>
GoodHeaderLine(l) == LET c == FirstOf(l, {COLON}) IN c > 1 /\ c <= Len(l) /\ AllIn(SubSeq(l, 1, c - 1), TokenChars)

ReplyParts(bytes) ==
    LET q == FoldLeft(RepStep, Rep0, bytes)
        l1 == q.lines[1]
        hs == [i \in 1..(Len(q.lines) - 1) |-> HeaderOf(q.lines[i + 1])]
        cl == {i \in DOMAIN hs : hs[i][1] = ContentLength}
        good == /\ q.done /\ q.lines # <<>>
                /\ Len(l1) > 12 /\ SubSeq(l1, 1, 8) = Http11 /\ l1[9] = SP /\ l1[13] = SP /\ AllIn(SubSeq(l1, 10, 12), 48..57)
                /\ \A i \in 2..Len(q.lines) : GoodHeaderLine(q.lines[i])
                /\ Cardinality(cl) = 1
                /\ DecDigits(hs[First(cl)][2]) /\ Len(hs[First(cl)][2]) < 9
    IN IF ~good THEN [ok |-> FALSE]
       ELSE LET n == SmallNum(hs[First(cl)][2])
            IN IF Len(bytes) - q.at + 1 < n THEN [ok |-> FALSE]        \* not delivered completely
               ELSE [ok |-> TRUE, status |-> SubSeq(l1, 10, 12),
                     payload |-> SubSeq(bytes, q.at, q.at + n - 1),
                     rest |-> SubSeq(bytes, q.at + n, Len(bytes))]

\* nothing but a line end may follow the payload
CompleteReply(p) == p.ok /\ p.rest \in {<<>>, <<LF>>, <<CR, LF>>}
=============================================================================
