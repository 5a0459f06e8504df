---------------------------- MODULE ReclaimTrace ----------------------------
(* Recorded runs judged.  Of the expiration worker alone: a request    *)
(* it makes is nothing but passes, and answers nobody; rounds keep coming    *)
(* until it is told to stop, and then it ends.  Of whole servers: how many   *)
(* of the big values stored are still held, at times after they elapsed.     *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
CONSTANTS Interval, Round     \* of the multithreaded server, ms

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>
Idle == [mode |-> "none"]

Max(a, b) == IF a > b THEN a ELSE b
\* passes that certainly ran in a span of ms (each round may begin a little late, so
\* that over many of them more than the slack is lost; the async server is given
\* a quarter of its rate)
Certain(kind, ms, slack) ==
    IF ms <= slack THEN 0
    ELSE IF kind = "multi" THEN Round * ((ms - slack) \div (Interval + slack \div 10))
    ELSE (ms - slack) \div 400

Worker(e) ==
    CASE e.kind = "pass" ->
           /\ st.mode = "worker" /\ e.good
           /\ e.at - st.last <= Interval + st.slack
           /\ st' = [st EXCEPT !.last = e.at, !.n = @ + e.n]
      [] e.kind = "stop" ->
           /\ e.at - st.last <= Interval + st.slack
           /\ st.n >= Certain("multi", e.at, st.slack)
           /\ st' = [st EXCEPT !.mode = "stopping", !.last = e.at]
      [] e.kind = "ended" ->
           /\ st.mode = "stopping" /\ e.good /\ e.at - st.last <= Interval + st.slack
           /\ st' = Idle
Held(e) ==
    CASE e.kind = "stored" ->
           st' = [mode |-> "held", server |-> e.server, n |-> e.n, keep |-> e.keep, extra |-> e.extra, gone |-> e.gone, slack |-> e.slack, low |-> e.n + e.keep]
      [] e.kind = "sample" ->
           /\ st.mode = "held"
           /\ e.alive
           /\ e.held >= st.keep
           /\ e.held <= st.keep + st.n
           \* nothing goes before its time
           /\ e.at < e.first => e.held = st.keep + st.n
           \* each pass meets an elapsed key, except where a tracked key lives on (then
           \* `extra' more passes: fewer suffice but for one time in 10^11)
           /\ e.held <= st.keep + Max(0, st.n + st.extra - Certain(st.server, e.at - st.gone, st.slack))
           \* what was reclaimed stays so
           /\ e.held <= st.low
           /\ st' = [st EXCEPT !.low = e.held]
Init == l = 1 /\ st = Idle
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.kind = "reset" THEN st' = [mode |-> "worker", last |-> 0, n |-> 0, slack |-> IF "slack" \in DOMAIN e THEN e.slack ELSE 0]
           ELSE IF e.kind \in {"stored", "sample"} THEN Held(e)
           ELSE Worker(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
