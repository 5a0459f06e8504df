---------------------------- MODULE ServiceTrace ----------------------------
(* Judges what many clients at once sent to a real server process and got    *)
(* (C12 C13 C14).  The service is one atomic object: every request takes     *)
(* effect at one moment between call and ret, runs exactly once, and its     *)
(* reply is the one of its own run.                                          *)
(*                                                                           *)
(* Events:                                                                   *)
(*   call  a client starts a request: id, bytes, f; got: the bytes that will *)
(*         be its reply; late: it took at least the service's time limit;    *)
(*         gone: "no", "left" (closed after sending everything, without      *)
(*         reading) or "lost" (reset the connection)                         *)
(*   ret   the reply of id has been read completely (or the client went)     *)
(*   sync  the server has been idle long enough: nothing is under way;       *)
(*         now: the time from here on                                        *)
(*   state what has become of the process at the end                         *)
(*   reset a new server                                                      *)
(*                                                                           *)
(* A run is chosen as late as possible: only when a reply has to be          *)
(* explained (or at a sync) do pending requests run, in any order.           *)
EXTENDS Served, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, db, now, pend, down
vars == <<l, db, now, pend, down>>
\* pend: id -> [job, p, kind, ran]; kind: "reply" (has to be explained by its run), "open"
\* (nobody hears of its run but it has to run), "maybe" (the server may not have got it)

NoReply == [ok |-> FALSE]
\* the reply of a request that was too slow; what a run would never say
Internal(p) == IF p.ok THEN p.status = StatusOf("InternalError") /\ ErrorNamed(p.text) = "InternalError" ELSE FALSE
TimedOut(p, late) == late /\ Internal(p)
GaveUp(p) == IF p.ok THEN Internal(p) ELSE TRUE

Entered(e) ==
    LET job == TLCEval(Job(e.bytes, TRUE, e.f))
        p == IF e.got = <<>> THEN NoReply ELSE TLCEval(ParsedReply(e.got))
    IN [job |-> job, p |-> p, ran |-> FALSE,
        kind |-> IF e.gone = "lost" THEN "maybe"
                 ELSE IF e.gone = "left" THEN "open"
                 ELSE IF job.k \in {"run", "either"} THEN (IF TimedOut(p, e.late) THEN "open" ELSE "reply")
                 ELSE "reply"]

Call(e) ==
    /\ e.kind = "call"
    /\ pend' = [i \in DOMAIN pend \cup {e.id} |-> IF i = e.id THEN Entered(e) ELSE pend[i]]
    /\ l' = l + 1
    /\ UNCHANGED <<db, now, down>>

Explains(o, x) == x.kind # "reply" \/ ReplySays(x.p, o.r)

\* a pending request runs
Lin(j) ==
    /\ ~pend[j].ran
    /\ \E o \in JobRun(pend[j].job, db, now) :
         /\ Explains(o, pend[j])
         /\ db' = o.db
         /\ down' = (down \/ o.r = RShut)
    /\ pend' = [pend EXCEPT ![j].ran = TRUE]
    /\ UNCHANGED <<l, now>>

Drop(ids) == [i \in DOMAIN pend \ ids |-> pend[i]]

Ret(e) ==
    /\ e.kind = "ret"
    /\ LET x == pend[e.id] IN
       \/ x.ran /\ pend' = Drop({e.id}) /\ l' = l + 1 /\ UNCHANGED <<db, now, down>>
       \/ ~x.ran /\ x.kind # "reply" /\ l' = l + 1 /\ UNCHANGED <<pend, db, now, down>>
       \* a server that is stopping need not run what it has not run yet
       \/ ~x.ran /\ x.kind = "reply" /\ down /\ GaveUp(x.p)
          /\ pend' = Drop({e.id}) /\ l' = l + 1 /\ UNCHANGED <<db, now, down>>
       \/ ~x.ran /\ x.kind = "reply" /\ \E j \in DOMAIN pend : Lin(j)

Sync(e) ==
    /\ e.kind = "sync"
    /\ \/ /\ down \/ \A i \in DOMAIN pend : pend[i].ran \/ pend[i].kind = "maybe"
          /\ pend' = Drop(DOMAIN pend)
          /\ now' = e.now
          /\ l' = l + 1
          /\ UNCHANGED <<db, down>>
       \/ \E j \in DOMAIN pend : Lin(j)

State(e) ==
    /\ e.kind = "state"
    /\ e.proc = IF down THEN "ended" ELSE "up"
    /\ l' = l + 1
    /\ UNCHANGED <<db, now, pend, down>>

Reset(e) ==
    /\ e.kind = "reset"
    /\ db' = EmptyDb /\ now' = 0 /\ pend' = <<>> /\ down' = FALSE
    /\ l' = l + 1

Init == l = 1 /\ db = EmptyDb /\ now = 0 /\ pend = <<>> /\ down = FALSE
        /\ TLCSet(1, 1)
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN Call(e) \/ Ret(e) \/ Sync(e) \/ State(e) \/ Reset(e)
        /\ TLCSet(1, IF TLCGet(1) < l' THEN l' ELSE TLCGet(1))
Spec == Init /\ [][Next]_vars
TypeOK == \A k \in DOMAIN db : WellTyped(db[k].val)
\* the first event nothing explains (Len + 1: none)
Accepted == PrintT(<<"REACHED", TLCGet(1)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
