------------------------------ MODULE HttpTrace ------------------------------
(* Judges recorded deliveries to the real readers and replies of the real    *)
(* senders.  Events:                                                         *)
(*   read:  bytes delivered, closed (by the client) or not, the outcome o    *)
(*          and the headers hs handed to the authentication service;         *)
(*          gone: the connection was reset, so bytes may have been lost      *)
(*   reply: the outcome r given to the sender (text: an error's text) and    *)
(*          the bytes the client got                                         *)
(*   big:   a string, or a vector of equal integers, sent as a reply: the    *)
(*          client got pre, then unit n times, then post                     *)
EXTENDS Reply, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

FixV(x) == IF x.t = "map" THEN [x EXCEPT !.m = {<<p[1], p[2]>> : p \in ToSet(@)}] ELSE x
FixR(r) == IF r[1] = "val" THEN <<"val", FixV(r[2])>> ELSE r

Read(e) ==
    LET q == TLCEval(ScanBytes(e.bytes))
        m == TLCEval(Meaning(q, e.bytes))
    IN /\ AllowedBy(m, e.closed, e.o) \/ (e.gone /\ e.o.k = "err")
       /\ e.o.k = "query" /\ m.st = "query" => HeadersSeen(q, e.hs)

ReplyEv(e) ==
    LET p == TLCEval(ParsedReply(e.bytes)) IN
    /\ ReplySays(p, FixR(e.r))
    /\ e.r[1] = "err" => p.text = e.text

(* A reply with one of its repetitions has to say the same with one          *)
(* repetition, and the lengths have to add up.                               *)
Big(e) ==
    LET elem == [t |-> IF e.what = "str" THEN "str" ELSE "int", v |-> e.x]
        small == IF e.what = "str" THEN elem ELSE [t |-> "vec", et |-> "int", es |-> <<elem, elem>>]
        reps == IF e.what = "str" THEN e.n ELSE e.n - 1
        q == TLCEval(FoldLeft(RepStep, Rep0, e.pre))
        before == SubSeq(e.pre, q.at, Len(e.pre))
        tail == IF e.post # <<>> /\ e.post[Len(e.post)] = LF THEN SubSeq(e.post, 1, Len(e.post) - 1) ELSE e.post
        hs == [i \in 1..(Len(q.lines) - 1) |-> HeaderOf(q.lines[i + 1])]
        is == {i \in DOMAIN hs : hs[i][1] = ContentLength}
        u == Utf8(before \o e.unit \o tail)
        j == ParseJson(u.cps)
    IN /\ q.done /\ q.lines # <<>> /\ Len(q.lines[1]) > 12
       /\ SubSeq(q.lines[1], 10, 12) = StatusOf("ok")
       /\ Cardinality(is) = 1
       /\ DecDigits(hs[First(is)][2])
       /\ e.got = reps
       /\ SmallNum(hs[First(is)][2]) = Len(before) + e.got * Len(e.unit) + Len(tail)
       /\ u.ok /\ j.st = "ok" /\ ResultSays(j.x, <<"val", small>>)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.kind = "reset" THEN TRUE
           ELSE IF e.kind = "read" THEN Read(e)
           ELSE IF e.kind = "reply" THEN ReplyEv(e)
           ELSE Big(e)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
