-------------------------------- MODULE Served --------------------------------
(* A server as a whole: from the bytes of a connection to the bytes of its   *)
(* reply.  Http says what the bytes mean, the authentication rule whom the   *)
(* request comes from, Lang what the query spells, Store what it does and    *)
(* replies, Reply how that reads on the wire.                                *)
EXTENDS LangStore, Reply

(***************************************************************************)
(* Authentication (the servers' own service)                               *)
(***************************************************************************)
UserNames(hs) == {i \in DOMAIN hs : Lower(hs[i][1]) = Lower(Username)}
GrantTo(u) == CASE u = N_admin -> <<"level", "admin">>
                [] u = N_write -> <<"level", "write">>
                [] u = N_read -> <<"level", "read">>
                [] u = N_unauthenticated -> <<"err", "AuthenticationError">>
                [] OTHER -> <<"err", "AuthorizationError">>
Absent == <<"err", "InternalError">>
\* the grants that are possible for these headers (one, unless the name is given twice or in another case)
Grants(hs) ==
    LET is == UserNames(hs)
        ascii(i) == \A j \in DOMAIN hs[i][2] : hs[i][2][j] < 128
    IN IF is = {} THEN {Absent}
       ELSE {GrantTo(hs[i][2]) : i \in is}
            \cup (IF \E i \in is : hs[i][1] # Username THEN {Absent} ELSE {})
            \cup (IF \E i \in is : ~ascii(i) THEN {Absent} ELSE {})

(***************************************************************************)
(* What a connection asks for                                              *)
(*   [k |-> "run", cs, lvl]   these commands at this level                 *)
(*   [k |-> "either", cs, gs] the same, as any of these grants has it (the *)
(*                            name is given twice, say), and to every      *)
(*                            variant alike                                *)
(*   [k |-> "err", es]        to be answered with one of these errors      *)
(*   [k |-> "none"]           incomplete: an error or no answer at all     *)
(*   [k |-> "any", http]      outside this specification; http: if it is   *)
(*                            at least a well-formed HTTP request          *)
(***************************************************************************)
AllErrors == {e.n : e \in ErrorNames}
RefusalErrors == {"TokenizationError", "ParseError", "TypeError"}
QueryJob(q, u) ==   \* q: reader state, u: understood query
    LET gs == Grants(q.hs)
        g == CHOOSE x \in gs : TRUE
    IN IF \A x \in gs : x[1] = "err" THEN [k |-> "err", es |-> {x[2] : x \in gs}]
       ELSE CASE u.st = "bad" -> [k |-> "err", es |-> RefusalErrors \cup {x[2] : x \in {y \in gs : y[1] = "err"}}]
              [] u.st = "ok" -> LET cs == TLCEval([i \in DOMAIN u.cs |-> StoreCmd(u.cs[i])])
                                IN IF \E i \in DOMAIN cs : ~Expressible(cs[i]) THEN [k |-> "any", http |-> TRUE]
                                   ELSE IF Cardinality(gs) = 1 THEN [k |-> "run", cs |-> cs, lvl |-> g[2]]
                                   ELSE [k |-> "either", cs |-> cs, gs |-> gs]
              [] OTHER -> [k |-> "any", http |-> TRUE]
Job(bytes, closed, floats) ==
    LET q == TLCEval(ScanBytes(bytes))
        m == TLCEval(Meaning(q, bytes))
    IN CASE m.st = "query" -> QueryJob(q, TLCEval(Understand(m.q, floats)))
         [] m.st = "bad" -> [k |-> "err", es |-> {"RequestError"}]
         [] m.st = "error" -> [k |-> "err", es |-> AllErrors]
         [] m.st \in {"wait", "waitbad"} -> [k |-> "none"]
         [] OTHER -> [k |-> "any", http |-> FALSE]

\* the outcomes of running a job
JobRun(job, db, now) ==
    CASE job.k = "run" -> Run(db, now, job.cs, job.lvl)
      [] job.k = "either" -> UNION {IF g[1] = "level" THEN Run(db, now, job.cs, g[2]) ELSE {Out(db, RErr(g[2]))} : g \in job.gs}
      [] job.k = "err" -> {Out(db, RErr(e)) : e \in job.es}
      [] OTHER -> {Out(db, RNull)}
=============================================================================
