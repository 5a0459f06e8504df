------------------------------ MODULE Reclaim -------------------------------
(* A running server reclaims by itself: a worker that puts a round of expiry *)
(* passes into the executor's queue for ever, whatever else is queued and    *)
(* however it ends; a pass removes one elapsed key, and answers nobody.      *)
EXTENDS Naturals, Sequences
CONSTANTS Round,      \* passes in a round
          MaxReq,     \* requests
          MaxQueue
VARIABLES live,       \* keys stored whose lifetime runs
          dead,       \* keys stored whose lifetime has elapsed
          queue,      \* of the executor: "pass", "store", "bad", "batch"
          inside,     \* commands of the request being run still to come
          made, answers
vars == <<live, dead, queue, inside, made, answers>>

Init == live = 0 /\ dead = 0 /\ queue = <<>> /\ inside = 0 /\ made = 0 /\ answers = 0
Ask == /\ made < MaxReq /\ made' = made + 1
       /\ \E k \in {"store", "bad", "batch"} : queue' = Append(queue, k)
       /\ UNCHANGED <<live, dead, inside, answers>>
Elapse == live > 0 /\ live' = live - 1 /\ dead' = dead + 1 /\ UNCHANGED <<queue, inside, made, answers>>
Passes == /\ Len(queue) + Round <= MaxQueue
          /\ queue' = queue \o [i \in 1..Round |-> "pass"]
          /\ UNCHANGED <<live, dead, inside, made, answers>>
\* a request runs whole: nothing, and no pass, in between
Exec == /\ queue # <<>> /\ inside = 0
        /\ queue' = Tail(queue)
        /\ CASE Head(queue) = "pass" -> dead' = (IF dead > 0 THEN dead - 1 ELSE 0) /\ UNCHANGED <<live, inside, answers>>
             [] Head(queue) = "store" -> live' = live + 1 /\ answers' = answers + 1 /\ UNCHANGED <<dead, inside>>
             [] Head(queue) = "bad" -> answers' = answers + 1 /\ UNCHANGED <<live, dead, inside>>
             [] Head(queue) = "batch" -> inside' = 2 /\ UNCHANGED <<live, dead, answers>>
        /\ UNCHANGED made
Inside == /\ inside > 0 /\ inside' = inside - 1
          /\ live' = live + 1
          /\ answers' = (IF inside = 1 THEN answers + 1 ELSE answers)
          /\ UNCHANGED <<dead, queue, made>>
Next == Ask \/ Elapse \/ Passes \/ Exec \/ Inside
Spec == Init /\ [][Next]_vars /\ WF_vars(Passes) /\ WF_vars(Exec) /\ WF_vars(Inside) /\ WF_vars(Elapse)

\* no answer but to a request
OneEach == answers <= made
\* no pass between the commands of a request
Whole == [][inside > 0 => dead' >= dead]_vars
\* everything elapsed goes in the end
Reclaimed == <>[](dead = 0 /\ live = 0)
=============================================================================
