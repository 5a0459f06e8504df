----------------------------- MODULE ServedTrace -----------------------------
(* Judges what clients of the real server processes sent and got, one        *)
(* request after the other (C05 C07 C08 C09 C12 C15 on the wire).            *)
(* Events: "req": the bytes one connection delivered, and for each server    *)
(*         variant the bytes of its reply (srv: their names);                *)
(*   bytes, f (floats of the query), now, got: sequence of replies;          *)
(*   gone: the client reset the connection or went away without reading      *)
(*         "state": what has become of the server processes at the end:      *)
(*   procs: "up", "ended" (by itself, exit status 0) or "crashed"            *)
(*         "reset": new servers                                              *)
EXTENDS Served, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, db,
          lost,     \* something outside the specification ran: store unknown
          apart,    \* the variants may not have had the same requests (a client was gone)
          down      \* a shutdown ran
vars == <<l, db, lost, apart, down>>

SaysOne(p, r) == ReplySays(p, FixR(r))
\* every variant gives this reply; error texts are the same
Same3(ps, r) == /\ \A i \in DOMAIN ps : ReplySays(ps[i], r)
                /\ IsErr(r) => \A i \in DOMAIN ps : ps[i].text = ps[1].text

AnyReply(p) == p.ok /\ \/ p.status = StatusOf("ok") /\ p.json.st = "ok"
                       \/ ErrorNamed(p.text) # "" /\ p.status = StatusOf(ErrorNamed(p.text))
ErrorReply(p) == p.ok /\ ErrorNamed(p.text) # "" /\ p.status = StatusOf(ErrorNamed(p.text))
\* the errors that mean that no command was run
Unrun == {"RequestError", "NetworkError", "AuthenticationError", "AuthorizationError", "TokenizationError"}
RefusedWhole(p) == ErrorReply(p) /\ ErrorNamed(p.text) \in Unrun

\* whatever it means, it means the same to every variant (maps are written in any order)
Agree(ps) == \A i \in DOMAIN ps :
    /\ ps[i].status = ps[1].status
    /\ IF ErrorReply(ps[1]) THEN ps[i].text = ps[1].text ELSE Len(ps[i].text) = Len(ps[1].text)

Req(e) ==
    /\ e.kind = "req"
    /\ LET job == TLCEval(Job(e.bytes, TRUE, e.f))
           ps == TLCEval([i \in DOMAIN e.got |-> IF e.got[i] = <<>> THEN [ok |-> FALSE] ELSE ParsedReply(e.got[i])])
           ask == TLCEval([i \in DOMAIN e.got |-> e.got[i] # <<>>])
       IN CASE job.k = "any" ->
                 /\ ~e.gone => \A i \in DOMAIN ps : AnyReply(ps[i])
                 /\ ~e.gone /\ job.http /\ ~apart => Agree(ps)
                 /\ apart' = (apart \/ e.gone \/ ~Agree(ps))
                 /\ lost' = (lost \/ e.gone \/ \E i \in DOMAIN ps : ~RefusedWhole(ps[i]))
                 /\ UNCHANGED <<db, down>>
            [] job.k = "none" ->
                 \* an incomplete request: an error, or the connection is given up
                 /\ \A i \in DOMAIN ps : ~ask[i] \/ ErrorReply(ps[i])
                 /\ UNCHANGED <<db, lost, apart, down>>
            [] OTHER ->
                 IF lost THEN /\ ~e.gone => (\A i \in DOMAIN ps : AnyReply(ps[i])) /\ (~apart => Agree(ps))
                              /\ apart' = (apart \/ e.gone)
                              /\ UNCHANGED <<db, lost, down>>
                 ELSE \E o \in JobRun(job, db, e.now) :
                        /\ IF e.gone THEN TRUE ELSE Same3(ps, o.r)
                        /\ db' = o.db
                        /\ lost' = FALSE
                        /\ UNCHANGED apart
                        /\ down' = (o.r = RShut)

\* a server has ended by itself exactly if a shutdown ran, and never otherwise
State(e) ==
    /\ \A i \in DOMAIN e.procs :
         IF lost THEN e.procs[i] # "crashed" ELSE e.procs[i] = (IF down THEN "ended" ELSE "up")
    /\ UNCHANGED <<db, lost, apart, down>>

Init == l = 1 /\ db = EmptyDb /\ lost = FALSE /\ apart = FALSE /\ down = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.kind = "reset" THEN db' = EmptyDb /\ lost' = FALSE /\ apart' = FALSE /\ down' = FALSE
           ELSE IF e.kind = "state" THEN State(e)
           ELSE ~down /\ Req(e)
Spec == Init /\ [][Next]_vars
TypeOK == \A k \in DOMAIN db : WellTyped(db[k].val)
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
