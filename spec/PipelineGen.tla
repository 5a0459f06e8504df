----------------------------- MODULE PipelineGen -----------------------------
(* Behaviours of Pipeline for replay on the real listeners, analyzers and    *)
(* executor.  The harness sits between the stages, so it decides when a      *)
(* request arrives, when an analyzer finishes, when the executor runs the    *)
(* head of its queue, when an answer reaches its listener and when time runs *)
(* out; what a stage does by itself (a free listener takes a connection)     *)
(* happens before the next decision.  Every behaviour is one of Pipeline.    *)
EXTENDS Pipeline, Json, TLC
CONSTANTS MaxTicks

VARIABLES h,       \* the decisions and what has to be seen after each
          ticks,
          written
gvars == <<kind, log, res, out, ran, down, conn, wait, aq, an, eq, rc, phase, passes, h, ticks, written>>

\* what happens by itself
CanTake == phase = "run" /\ conn # <<>> /\ Cardinality(wait) < NL
CanAnTake == phase \in {"run", "stopL"} /\ aq # <<>> /\ Cardinality(an) < NA
CanStopListeners == phase = "run" /\ down
Urgent == CanTake \/ CanAnTake
Note(e) == h' = Append(h, e)

ByItself == /\ \/ CanTake /\ Take /\ LET r == Head(conn) IN Note(IF kind[r] = "deny" THEN [do |-> "sees", r |-> r, out |-> out'[r]] ELSE [do |-> "taken", r |-> r])
               \/ ~CanTake /\ CanAnTake /\ AnTake /\ UNCHANGED h
            /\ UNCHANGED <<ticks, written>>

Next1(r) == \A s \in Reqs : s < r => kind[s] # "none"
\* the end of a behaviour
Quiet == /\ \A r \in Reqs : kind[r] # "none"
         /\ conn = <<>> /\ wait = {} /\ aq = <<>> /\ an = {} /\ eq = <<>> /\ \A r \in Reqs : rc[r] = <<>>
         /\ passes = MaxPass /\ (down => phase = "done")
Final == phase = "done" \/ Quiet

Decide ==
    /\ ~Urgent /\ ~Final /\ UNCHANGED written
    /\ \/ /\ UNCHANGED ticks
          /\ \/ \E r \in Reqs : /\ Next1(r)
                               /\ \E k \in {RandomElement(Kinds)} : Arrive(r, k) /\ Note([do |-> "arrive", r |-> r, kind |-> k])
             \/ phase # "stopA" /\ \E r \in an : AnDone(r) /\ Note(IF kind[r] = "bad" THEN [do |-> "analyze", r |-> r, res |-> res'[r]] ELSE [do |-> "analyze", r |-> r, res |-> <<"queued">>])
             \/ Pass /\ Note([do |-> "pass"])
             \/ Exec /\ Note(IF Head(eq) = 0 THEN [do |-> "expire"] ELSE [do |-> "exec", r |-> Head(eq), res |-> res'[Head(eq)]])
             \/ \E r \in Reqs : Deliver(r) /\ Note([do |-> "deliver", r |-> r, out |-> out'[r]])
             \/ \E r \in Reqs : Discard(r) /\ Note([do |-> "discard", r |-> r])
             \/ StopListeners /\ Note([do |-> "stop listeners"])
             \/ an = {} /\ StopAnalyzers /\ Note([do |-> "stop analyzers"])
             \/ StopExecutor /\ Note([do |-> "stop executor"])
       \/ /\ ticks < MaxTicks /\ RandomElement(1..3) = 1
          /\ ticks' = ticks + 1
          /\ Timeout(wait) /\ Note([do |-> "timeout", rs |-> wait])
\* a behaviour is written out at its end
Finish == Final /\ ~Urgent /\ ~written /\ written' = TRUE
          /\ UNCHANGED <<kind, log, res, out, ran, down, conn, wait, aq, an, eq, rc, phase, passes, h, ticks>>
GInit == Init /\ h = <<>> /\ ticks = 0 /\ written = FALSE
GNext == ByItself \/ Decide \/ Finish
GSpec == GInit /\ [][GNext]_gvars
Emit == written => PrintT(ToJson(<<"B", h>>))
=============================================================================
