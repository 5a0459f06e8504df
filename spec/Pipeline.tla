------------------------------ MODULE Pipeline ------------------------------
(* The multithreaded server's stages: listeners that take connections and    *)
(* wait for the answer with a time limit, a queue to the analyzers, a queue  *)
(* to the one executor, a reply channel per request, expiry passes, and the  *)
(* order in which the coordinator stops them.  Refines Service.              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Reqs, Kinds, NL, NA, MaxPass

VARIABLES kind, log, res, out, ran, down,     \* as in Service
          conn,      \* connections nobody has taken yet
          wait,      \* requests a listener is waiting for (at most NL)
          aq,        \* queue to the analyzers
          an,        \* requests being analyzed (at most NA)
          eq,        \* queue to the executor; 0 for an expiry pass
          rc,        \* what is in each request's reply channel, <<>> if nothing
          phase,     \* of the coordinator
          passes
svars == <<kind, log, res, out, ran, down>>
pvars == <<conn, wait, aq, an, eq, rc, phase, passes>>
vars == <<kind, log, res, out, ran, down, conn, wait, aq, an, eq, rc, phase, passes>>

S == INSTANCE Service

Init == /\ S!Init
        /\ conn = <<>> /\ wait = {} /\ aq = <<>> /\ an = {} /\ eq = <<>>
        /\ rc = [r \in Reqs |-> <<>>] /\ phase = "run" /\ passes = 0

Arrive(r, k) ==
    /\ kind[r] = "none" /\ phase # "done"
    /\ kind' = [kind EXCEPT ![r] = k]
    /\ conn' = Append(conn, r)
    /\ UNCHANGED <<log, res, out, ran, down, wait, aq, an, eq, rc, phase, passes>>

\* a free listener takes the first connection: rejected credentials are answered at once
Take ==
    /\ phase = "run" /\ conn # <<>> /\ Cardinality(wait) < NL
    /\ conn' = Tail(conn)
    /\ LET r == Head(conn) IN
       IF kind[r] = "deny"
       THEN /\ S!RunAnswer(r)
            /\ UNCHANGED <<wait, aq>>
       ELSE /\ wait' = wait \cup {r}
            /\ aq' = Append(aq, r)
            /\ UNCHANGED svars
    /\ UNCHANGED <<an, eq, rc, phase, passes>>

AnTake ==
    /\ phase \in {"run", "stopL"} /\ aq # <<>> /\ Cardinality(an) < NA
    /\ an' = an \cup {Head(aq)}
    /\ aq' = Tail(aq)
    /\ UNCHANGED <<kind, log, res, out, ran, down, conn, wait, eq, rc, phase, passes>>

\* analyzed: to the executor, or the error back to the listener
AnDone(r) ==
    /\ r \in an
    /\ an' = an \ {r}
    /\ IF kind[r] = "bad"
       THEN S!Run(r) /\ rc' = [rc EXCEPT ![r] = res'[r]] /\ UNCHANGED eq
       ELSE eq' = Append(eq, r) /\ UNCHANGED <<rc, kind, log, res, out, ran, down>>
    /\ UNCHANGED <<conn, wait, aq, phase, passes>>

Pass == /\ phase \in {"run", "stopL", "stopA"} /\ passes < MaxPass
        /\ passes' = passes + 1
        /\ eq' = Append(eq, 0)
        /\ UNCHANGED <<kind, log, res, out, ran, down, conn, wait, aq, an, rc, phase>>

Exec == /\ phase # "done" /\ eq # <<>>
        /\ eq' = Tail(eq)
        /\ LET r == Head(eq) IN
           IF r = 0 THEN UNCHANGED <<kind, log, res, out, ran, down, rc>>
           ELSE S!Run(r) /\ rc' = [rc EXCEPT ![r] = res'[r]]
        /\ UNCHANGED <<conn, wait, aq, an, phase, passes>>

\* the listener that waits for r passes the answer on
Deliver(r) ==
    /\ r \in wait /\ rc[r] # <<>>
    /\ wait' = wait \ {r}
    /\ rc' = [rc EXCEPT ![r] = <<>>]
    /\ S!Answer(r)
    /\ UNCHANGED <<conn, aq, an, eq, phase, passes>>
\* nobody waits any more: the answer goes nowhere
Discard(r) ==
    /\ r \notin wait /\ rc[r] # <<>>
    /\ rc' = [rc EXCEPT ![r] = <<>>]
    /\ UNCHANGED <<kind, log, res, out, ran, down, conn, wait, aq, an, eq, phase, passes>>
Timeout(X) ==
    /\ X # {} /\ X \subseteq wait
    /\ wait' = wait \ X
    /\ S!Late(X)
    /\ UNCHANGED <<conn, aq, an, eq, rc, phase, passes>>

\* the coordinator, once a shutdown ran: listeners, analyzers, (passes,) executor
StopListeners == phase = "run" /\ down /\ phase' = "stopL" /\ UNCHANGED <<kind, log, res, out, ran, down, conn, wait, aq, an, eq, rc, passes>>
StopAnalyzers == phase = "stopL" /\ wait = {} /\ phase' = "stopA" /\ UNCHANGED <<kind, log, res, out, ran, down, conn, wait, aq, an, eq, rc, passes>>
StopExecutor == phase = "stopA" /\ an = {} /\ phase' = "done" /\ UNCHANGED <<kind, log, res, out, ran, down, conn, wait, aq, an, eq, rc, passes>>

Next == \/ \E r \in Reqs : (\E k \in Kinds : Arrive(r, k)) \/ AnDone(r) \/ Deliver(r) \/ Discard(r)
        \/ Take \/ AnTake \/ Pass \/ Exec
        \/ \E X \in SUBSET Reqs : Timeout(X)
        \/ StopListeners \/ StopAnalyzers \/ StopExecutor

Fair == /\ WF_vars(Take) /\ WF_vars(AnTake) /\ WF_vars(Exec)
        /\ \A r \in Reqs : WF_vars(AnDone(r)) /\ WF_vars(Deliver(r))
        /\ WF_vars(StopListeners) /\ WF_vars(StopAnalyzers) /\ WF_vars(StopExecutor)
Spec == Init /\ [][Next]_vars /\ Fair

Refines == S!Spec
OwnReply == S!OwnReply
OnceEach == S!OnceEach
OnlyPermitted == S!OnlyPermitted
Ordered == S!Ordered
OnlyShutdownStops == S!OnlyShutdownStops /\ (phase # "run" => down)
\* every request is in exactly one place, or was answered for good
Placed == \A r \in Reqs : kind[r] # "none" /\ kind[r] # "deny" =>
            Cardinality({x \in {"conn", "aq", "an", "eq", "ran"} :
                           CASE x = "conn" -> \E i \in DOMAIN conn : conn[i] = r
                             [] x = "aq" -> \E i \in DOMAIN aq : aq[i] = r
                             [] x = "an" -> r \in an
                             [] x = "eq" -> \E i \in DOMAIN eq : eq[i] = r
                             [] x = "ran" -> r \in ran}) = 1
Bounded == Cardinality(wait) <= NL /\ Cardinality(an) <= NA
\* executed before the listeners were done: answered
AnsweredIfRun == phase \in {"stopA", "done"} => \A r \in ran : out[r] # <<>> \/ r \notin ran
\* whoever is taken is answered
AllAnswered == \A r \in Reqs : (r \in wait) ~> (out[r] # <<>>)
\* as long as nobody shuts the server down everybody is answered, and the late ones run
ServedAll == \A r \in Reqs : (kind[r] # "none") ~> (r \in ran \/ down)
StopsCleanly == down ~> (phase = "done")
=============================================================================
