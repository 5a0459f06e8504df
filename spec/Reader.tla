-------------------------------- MODULE Reader --------------------------------
(* The reading loop of the servers as a transition system: a client's bytes  *)
(* arrive in pieces of any size, the client may close at any point, and the  *)
(* loop reads up to BufSize bytes at a time and looks at all it has so far.  *)
(* Whatever the pieces: the outcome is one the meaning of the bytes allows,  *)
(* a decided outcome never depends on the pieces, and the loop ends.         *)
EXTENDS HttpGen

CONSTANTS BufSize, MaxLen
VARIABLES arrived, got, q, closed, out
rvars == <<c, arrived, got, q, closed, out>>

S == Stream(c)
Undecided == [k |-> "wait"]

RInit == /\ c \in {x \in OneOff(Plain) : Len(Stream(x)) <= MaxLen}
         /\ arrived = 0 /\ got = 0 /\ q = R0 /\ closed = FALSE /\ out = Undecided

Arrive == /\ ~closed /\ arrived < Len(S)
          /\ \E n \in (arrived + 1)..Len(S) : (n - arrived <= 3 \/ n = Len(S)) /\ arrived' = n
          /\ UNCHANGED <<c, got, q, closed, out>>
Shut == /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<c, arrived, got, q, out>>

\* what the loop decides once it has these bytes
DecideOn(m) == CASE m.st = "query" -> [k |-> "query", q |-> m.q]
                 [] m.st \in {"bad", "waitbad"} -> [k |-> "err", e |-> "RequestError"]
                 [] m.st \in {"error", "any"} -> [k |-> "err", e |-> "NetworkError"]
                 [] OTHER -> Undecided
Read == /\ out = Undecided /\ got < arrived
        /\ LET n == IF arrived - got <= BufSize THEN arrived ELSE got + BufSize
               q2 == FoldLeft(ScanStep, q, SubSeq(S, got + 1, n))
           IN got' = n /\ q' = q2 /\ out' = DecideOn(Meaning(q2, S))
        /\ UNCHANGED <<c, arrived, closed>>
ReadEnd == /\ out = Undecided /\ got = arrived /\ closed
           /\ out' = [k |-> "err", e |-> "NetworkError"]
           /\ UNCHANGED <<c, arrived, got, q, closed>>

RNext == Arrive \/ Shut \/ Read \/ ReadEnd
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(Arrive) /\ WF_rvars(Read) /\ WF_rvars(ReadEnd)

Whole == Meaning(ScanBytes(S), S)
\* the outcome fits what had been received
Fits == out # Undecided =>
    /\ AllowedBy(Meaning(q, S), closed /\ got = arrived, out)
\* nothing but the bytes decides: two runs that decide on a query decide on the same
SameQuery == out.k = "query" => Whole.st = "query" /\ out.q = Whole.q
\* a complete request is never lost, however it came: only an early end of the stream is an error
NeverLost == (out.k = "err" /\ Whole.st = "query") => (closed /\ arrived < Len(S)) \/ Meaning(q, S).st = "any"
Ends == <>(out # Undecided \/ (~closed /\ Whole.st \in {"wait", "waitbad"}))
ClosedEnds == closed ~> out # Undecided
=============================================================================
