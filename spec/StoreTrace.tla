----------------------------- MODULE StoreTrace -----------------------------
(* Judges recorded histories of the real store against Store.tla: every      *)
(* event is one request run to completion; the spec has to allow its reply   *)
(* and its effect on the visible store and on the bookkeeping counts.        *)
(*                                                                           *)
(* Times and deadlines are milliseconds since the history began.  Deadlines  *)
(* that cannot elapse within a history are written j * 200000000 + offset,   *)
(* an anchor plus an offset (TLC's integers have 32 bits; `now' stays far    *)
(* below the first anchor, so comparison and subtraction come out right).    *)
EXTENDS Store, Json, TLC, SequencesExt, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, db
vars == <<l, db>>

FixV(x) == IF x.t = "map" THEN [x EXCEPT !.m = {<<p[1], p[2]>> : p \in ToSet(@)}] ELSE x
FixR(r) == IF r[1] = "val" THEN <<"val", FixV(r[2])>> ELSE r
FixC(c) == IF "val" \in DOMAIN c THEN [c EXCEPT !.val = FixV(@)] ELSE c

Visible(d, now) == [k \in LiveKeys(d, now) |-> d[k]]

DeltaOK(d1, d2, now, delta) ==
    LET v1 == Visible(d1, now)
        v2 == Visible(d2, now)
        changed == {k \in DOMAIN v1 \cup DOMAIN v2 :
                      ~(k \in DOMAIN v1 /\ k \in DOMAIN v2 /\ v1[k] = v2[k])}
    IN /\ {e.k : e \in ToSet(delta)} = changed
       /\ \A i \in DOMAIN delta : LET e == delta[i] IN
            /\ e.gone <=> e.k \notin DOMAIN v2
            /\ ~e.gone => v2[e.k] = Entry(FixV(e.val), e.exp)

Books(d, e) == Cardinality(DOMAIN d) = e.len /\ Cardinality(Tracked(d)) = e.trk

Init == l = 1 /\ db = EmptyDb

Reset(e) == e.kind = "reset" /\ db' = EmptyDb

Request(e) ==
    /\ e.kind = "run"
    /\ LET cs == TLCEval([i \in DOMAIN e.cs |-> FixC(e.cs[i])])
           r == FixR(e.r)
       IN \E o \in Run(db, e.now, cs, e.lvl) :
            /\ o.r = r
            /\ db' = o.db
            /\ DeltaOK(db, o.db, e.now, e.d)
            /\ Books(o.db, e)

\* many passes in a row found nothing: nothing elapsed is left
Drained(e) ==
    /\ e.kind = "drained"
    /\ ElapsedKeys(db, e.now) = {}
    /\ Books(db, e)
    /\ UNCHANGED db

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ Request(e) \/ Drained(e)

Spec == Init /\ [][Next]_vars

TypeOK == \A k \in DOMAIN db : WellTyped(db[k].val)
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
