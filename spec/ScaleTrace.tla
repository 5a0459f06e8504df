----------------------------- MODULE ScaleTrace -----------------------------
(* Judges recorded histories at sizes StoreTrace cannot follow: thousands of *)
(* keys, of which hundreds may have elapsed without being removed.  Which of *)
(* the elapsed keys a pass removed cannot be seen from outside and, since    *)
(* an elapsed key is absent to every command, does not matter: this module   *)
(* is the quotient of Store by it.  `live' is the store without its elapsed  *)
(* entries, `dead' how many of those are still held.                         *)
EXTENDS Store, Json, TLC, SequencesExt, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, live, dead
vars == <<l, live, dead>>

FixV(x) == IF x.t = "map" THEN [x EXCEPT !.m = {<<p[1], p[2]>> : p \in ToSet(@)}] ELSE x
FixR(r) == IF r[1] = "val" THEN <<"val", FixV(r[2])>> ELSE r
FixC(c) == IF "val" \in DOMAIN c THEN [c EXCEPT !.val = FixV(@)] ELSE c

Init == l = 1 /\ live = EmptyDb /\ dead = 0

Reset(e) == e.kind = "reset" /\ live' = EmptyDb /\ dead' = 0

Alive(d, now) == IF \E k \in DOMAIN d : Elapsed(d[k], now) THEN [k \in LiveKeys(d, now) |-> d[k]] ELSE d

DeltaOK(v1, v2, delta) ==
    LET named == {delta[i].k : i \in DOMAIN delta}
    IN /\ \A k \in DOMAIN v1 \cup DOMAIN v2 :
            (k \in named) <=> ~(k \in DOMAIN v1 /\ k \in DOMAIN v2 /\ v1[k] = v2[k])
       /\ \A i \in DOMAIN delta : LET e == delta[i] IN
            /\ e.k \in DOMAIN v1 \cup DOMAIN v2
            /\ e.gone <=> e.k \notin DOMAIN v2
            /\ ~e.gone => v2[e.k] = Entry(FixV(e.val), e.exp)

Books(v, n, e) == Cardinality(DOMAIN v) + n = e.len /\ Cardinality(Tracked(v)) + n = e.trk

Request(e) ==
    /\ e.kind = "run"
    /\ LET cs == TLCEval([i \in DOMAIN e.cs |-> FixC(e.cs[i])])
           r == FixR(e.r)
           v == TLCEval(Alive(live, e.now))
           held == dead + (Cardinality(DOMAIN live) - Cardinality(DOMAIN v))
       IN IF Len(cs) = 1 /\ cs[1].op = "pass"
          THEN \* at most one, an elapsed one; the live ones stay
               /\ r[1] = "size" /\ r[2] \in {0, 1} /\ r[2] <= held
               \* a pass over tracked keys that have all elapsed has to find one
               /\ (r[2] = 0 /\ held > 0) => Tracked(v) # {}
               /\ live' = v
               /\ dead' = held - r[2]
               /\ e.d = <<>>
               /\ Books(v, held - r[2], e)
          ELSE \E o \in Run(v, e.now, cs, e.lvl) :
               /\ o.r = r
               /\ live' = Alive(o.db, e.now)   \* what was given a lifetime of nothing is gone at once
               /\ LET w == live'
                      added == Cardinality(DOMAIN o.db) - Cardinality(DOMAIN w)
                      left == e.len - Cardinality(DOMAIN w)
                     names == {cs[i].key : i \in {j \in DOMAIN cs : "key" \in DOMAIN cs[j]}}
                  IN /\ dead' = left
                     /\ held - left <= Cardinality(names)   \* commands touch only the keys they name
                     /\ left >= 0 /\ left <= held + added
                     /\ (cs = <<>> \/ r = RErr("AuthorizationError")) => left = held
                     /\ DeltaOK(v, w, e.d)
                     /\ Books(w, left, e)

\* after many passes in a row that found nothing, nothing elapsed is held
Drained(e) ==
    /\ e.kind = "drained"
    /\ dead = 0 /\ \A k \in DOMAIN live : ~Elapsed(live[k], e.now)
    /\ Books(live, 0, e)
    /\ UNCHANGED <<live, dead>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ Request(e) \/ Drained(e)

Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
