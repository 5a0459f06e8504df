------------------------------- MODULE Service -------------------------------
(* What a server owes its clients, with requests as atomic actions: every    *)
(* request takes effect at one moment after it was sent, at most once; it is *)
(* answered once, with what it did at that moment, or told that it is late   *)
(* (and then still runs); only a shutdown that ran stops the server.         *)
(*                                                                           *)
(* The store is the log of the requests that changed it, so a reply that     *)
(* shows the log shows everything.  The stages of the multithreaded server   *)
(* (Pipeline) refine this.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Reqs, Kinds
VARIABLES kind,   \* what each request asks for, "none" before it is sent
          ran,    \* the requests that have taken effect (or were refused)
          log,    \* the pushes that have run, in order
          res,    \* what each request's run gave, <<>> before
          out,    \* what each client was answered, <<>> before
          down    \* a shutdown has run
vars == <<kind, ran, log, res, out, down>>

AllKinds == {"push",      \* append to the log and show it
             "peek",      \* show the log
             "fail",      \* append, then fail: the append stays
             "refused",   \* append, asked for by a reader
             "bad",       \* not in the language
             "deny",      \* credentials rejected
             "stop"}      \* shutdown
\* what running k does to the log g for request r: <<log, result>>
Effect(k, r, g) ==
    CASE k = "push" -> <<Append(g, r), <<"log", Append(g, r)>> >>
      [] k = "peek" -> <<g, <<"log", g>> >>
      [] k = "fail" -> <<Append(g, r), <<"err", "key">> >>
      [] k = "refused" -> <<g, <<"err", "authorization">> >>
      [] k = "bad" -> <<g, <<"err", "parse">> >>
      [] k = "deny" -> <<g, <<"err", "deny">> >>
      [] k = "stop" -> <<g, <<"bye">> >>
LateReply == <<"late">>
GoneReply == <<"gone">>     \* no answer: the server stopped before running it

Init == /\ kind = [r \in Reqs |-> "none"] /\ ran = {} /\ log = <<>>
        /\ res = [r \in Reqs |-> <<>>] /\ out = [r \in Reqs |-> <<>>] /\ down = FALSE

Send(r) == /\ kind[r] = "none"
           /\ \E k \in Kinds : kind' = [kind EXCEPT ![r] = k]
           /\ UNCHANGED <<ran, log, res, out, down>>
Run(r) == /\ kind[r] # "none" /\ r \notin ran
          /\ ran' = ran \cup {r}
          /\ log' = Effect(kind[r], r, log)[1]
          /\ res' = [res EXCEPT ![r] = Effect(kind[r], r, log)[2]]
          /\ down' = (down \/ kind[r] = "stop")
          /\ UNCHANGED <<kind, out>>
Answer(r) == /\ r \in ran /\ out[r] = <<>>
             /\ out' = [out EXCEPT ![r] = res[r]]
             /\ UNCHANGED <<kind, ran, log, res, down>>
\* run and answered in one step
RunAnswer(r) == /\ kind[r] # "none" /\ r \notin ran /\ out[r] = <<>>
                /\ ran' = ran \cup {r}
                /\ log' = Effect(kind[r], r, log)[1]
                /\ res' = [res EXCEPT ![r] = Effect(kind[r], r, log)[2]]
                /\ down' = (down \/ kind[r] = "stop")
                /\ out' = [out EXCEPT ![r] = Effect(kind[r], r, log)[2]]
                /\ UNCHANGED kind
Late(S) == /\ \A r \in S : kind[r] # "none" /\ out[r] = <<>>
           /\ out' = [r \in Reqs |-> IF r \in S THEN LateReply ELSE out[r]]
           /\ UNCHANGED <<kind, ran, log, res, down>>
Next == \/ \E r \in Reqs : Send(r) \/ Run(r) \/ Answer(r) \/ RunAnswer(r)
        \/ \E S \in SUBSET Reqs : Late(S)
Spec == Init /\ [][Next]_vars

(* what follows for clients *)
OwnReply == \A r \in Reqs : out[r] \in {<<>>, LateReply} \/ out[r] = res[r]
OnceEach == \A i, j \in DOMAIN log : i # j => log[i] # log[j]
OnlyPermitted == \A i \in DOMAIN log : kind[log[i]] \in {"push", "fail"}
\* a reply shows every push answered before the request was sent: checked on real
\* histories by ServiceTrace; here: the logs shown are prefixes of one another
Ordered == \A r, s \in Reqs : /\ res[r] # <<>> /\ res[s] # <<>> /\ res[r][1] = "log" /\ res[s][1] = "log"
              => LET a == res[r][2] b == res[s][2] IN
                 IF Len(a) <= Len(b) THEN SubSeq(b, 1, Len(a)) = a ELSE SubSeq(a, 1, Len(b)) = b
OnlyShutdownStops == down => \E r \in Reqs : kind[r] = "stop" /\ r \in ran
=============================================================================
