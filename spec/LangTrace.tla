------------------------------ MODULE LangTrace ------------------------------
(* Judges recorded query texts against the language (Lang) and, where they   *)
(* were run, against the store (Store): a text has to have exactly the       *)
(* effect and the reply of the commands it spells, or be refused without     *)
(* effect if it spells none.                                                 *)
(*                                                                           *)
(* Events: "parse": a text and the commands the real parser made of it;      *)
(* "query": a text run on a real store, with reply and (unless `blind') change *)
(* of the visible store and bookkeeping counts; "reset": a new store.                       *)
EXTENDS LangStore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, db,
          lost      \* a text outside the model's character tables was run: store unknown until reset
vars == <<l, db, lost>>

Visible(d, now) == [k \in LiveKeys(d, now) |-> d[k]]
DeltaOK(d1, d2, now, delta) ==
    LET v1 == Visible(d1, now)
        v2 == Visible(d2, now)
        changed == {k \in DOMAIN v1 \cup DOMAIN v2 :
                      ~(k \in DOMAIN v1 /\ k \in DOMAIN v2 /\ v1[k] = v2[k])}
    IN /\ {e.k : e \in ToSet(delta)} = changed
       /\ \A i \in DOMAIN delta : LET e == delta[i] IN
            /\ e.gone <=> e.k \notin DOMAIN v2
            /\ ~e.gone => v2[e.k] = Entry(FixV(e.val), e.exp)
Books(d, e) == Cardinality(DOMAIN d) = e.len /\ Cardinality(Tracked(d)) = e.trk

Init == l = 1 /\ db = EmptyDb /\ lost = FALSE

Reset(e) == e.kind = "reset" /\ db' = EmptyDb /\ lost' = FALSE

ParseEvent(e) ==
    /\ e.kind = "parse"
    /\ LET u == TLCEval(Understand(e.t, e.f)) IN
       CASE u.st = "ok" -> e.o.st = "ok" /\ [i \in DOMAIN e.o.cs |-> FixC(e.o.cs[i])] = u.cs
         [] u.st = "bad" -> e.o.st = "bad" /\ e.o.e \in RefusalKinds
         [] OTHER -> e.o.st = "ok" \/ (e.o.st = "bad" /\ e.o.e \in RefusalKinds)
    /\ UNCHANGED <<db, lost>>

QueryEvent(e) ==
    /\ e.kind = "query"
    /\ LET u == TLCEval(Understand(e.t, e.f)) IN
       IF lost \/ u.st = "unknown" THEN e.r[1] # "panic" /\ lost' = TRUE /\ UNCHANGED db
       ELSE IF u.st = "bad" THEN
            /\ e.r[1] = "err" /\ e.r[2] \in RefusalKinds
            /\ IF e.blind THEN TRUE ELSE e.d = <<>> /\ Books(db, e)
            /\ UNCHANGED <<db, lost>>
       ELSE LET cs == TLCEval([i \in DOMAIN u.cs |-> StoreCmd(u.cs[i])]) IN
            IF \E i \in DOMAIN cs : ~Expressible(cs[i]) THEN e.r[1] # "panic" /\ lost' = TRUE /\ UNCHANGED db
            ELSE /\ UNCHANGED lost
                 /\ \E o \in Run(db, e.now, cs, e.lvl) :
                      /\ o.r = FixR(e.r)
                      /\ db' = o.db
                      /\ IF e.blind THEN TRUE ELSE DeltaOK(db, o.db, e.now, e.d) /\ Books(o.db, e)

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ ParseEvent(e) \/ QueryEvent(e)

Spec == Init /\ [][Next]_vars
TypeOK == \A k \in DOMAIN db : WellTyped(db[k].val)
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
