------------------------------ MODULE StoreGen ------------------------------
(* Bounded model of the store: TLC enumerates every reachable store over the *)
(* configured alphabet, checks the listed properties on every transition,    *)
(* and prints every transition (state, request, reply, next state).  The     *)
(* harness replays all of them, and random walks over them, on the real code.*)
(*                                                                           *)
(* Deadlines are kept relative to the present (`now' is always 0): Tick lets *)
(* half a second pass.                                                       *)
EXTENDS Store, Json, TLC

CONSTANTS Alphabet,      \* which configuration below
          Emitting       \* print transitions?

VARIABLES db, req, rep
vars == <<db, req, rep>>
View == db

I(n) == [t |-> "int", v |-> n]
S(s) == [t |-> "str", v |-> s]
B(b) == [t |-> "bool", v |-> b]
F(f) == [t |-> "float", v |-> f]

W(op, k, x, l) == [op |-> op, key |-> k, val |-> x, life |-> l]
K(op, k) == [op |-> op, key |-> k]
VG(k, i) == [op |-> "vget", key |-> k, i |-> i]
VS(k, i, x) == [op |-> "vset", key |-> k, i |-> i, val |-> x]
VP(k, x) == [op |-> "vpush", key |-> k, val |-> x]
MK(op, k, m) == [op |-> op, key |-> k, mk |-> m]
MS(k, m, x) == [op |-> "mset", key |-> k, mk |-> m, val |-> x]
SL(k, l) == [op |-> "setlife", key |-> k, life |-> l]
Pass == [op |-> "pass"]
Shutdown == [op |-> "shutdown"]
NullCmd == [op |-> "null"]

Reads(k) == {K(op, k) : op \in {"get", "tryget", "ex", "type"}}

(*** values: every kind of value on two keys, no lifetimes ***)
ValueCmds ==
    LET Keys == {"a", "b"}
        Vals == {Null, B("true"), B("false"), I("1"), F("1.5"), S("x"), MkVec("int", <<>>), MkVec("int", <<I("1"), I("2")>>),
                 MkVec("bool", <<>>), MkVec("float", <<F("1.5")>>), MkVec("str", <<S("x")>>), MkMap("int", "int", {}),
                 MkMap("str", "int", {<<S("x"), I("1")>>}), MkMap("int", "bool", {<<I("1"), B("true")>>}),
                 MkMap("int", "str", {<<I("1"), S("x")>>}), MkMap("str", "float", {})}
        Few == {Null, I("2"), MkVec("int", <<I("2")>>)}
        El == {I("1"), I("2"), S("x"), B("true"), F("1.5")}
    IN UNION {Reads(k) \cup {K("del", k), K("vpop", k), K("vlen", k), K("mlen", k)}
              \cup {W("set", k, x, NoLife) : x \in Vals}
              \cup {W(op, k, x, NoLife) : op \in {"tryset", "upd"}, x \in Few}
              \cup {VG(k, i) : i \in {0, 1, 2}}
              \cup {VS(k, i, x) : i \in {0, 1, 2}, x \in {I("1"), I("2"), S("x"), B("true")}}
              \cup {VP(k, x) : x \in El}
              \cup {MK(op, k, m) : op \in {"mget", "mdel", "mex"}, m \in {I("1"), I("2"), S("x")}}
              \cup {MS(k, m, x) : m \in {I("1"), I("2"), S("x")}, x \in {I("1"), I("2"), S("x"), B("true")}}
              : k \in Keys}

(*** lifetimes: three keys, scalar and vector values, every lifetime class ***)
LifeCmds ==
    LET Keys == IF Alphabet = "life" THEN {"a", "b"} ELSE {"a", "b", "c"}
        Vals == {I("1"), MkVec("int", <<I("1")>>)}
        Ls == {NoLife, 0, 2, 4, HugeLife}
    IN UNION {Reads(k) \cup {K("del", k), K("getlife", k), K("check", k), K("vpop", k), K("vlen", k), K("mlen", k)}
              \cup {W("set", k, x, l) : x \in Vals, l \in Ls}
              \cup {W(op, k, I("1"), l) : op \in {"tryset", "upd"}, l \in Ls}
              \cup {SL(k, l) : l \in Ls}
              \cup {VP(k, x) : x \in {I("1"), S("x")}} \cup {VG(k, 0), VG(k, 1), VS(k, 0, I("1")), VS(k, 1, I("1"))}
              : k \in Keys} \cup {Pass}

(*** one key, map and vector values with lifetimes ***)
LifeCollCmds ==
    LET k == "a"
        Vals == {MkMap("str", "int", {}), MkVec("str", <<>>), S("x")}
        Ls == {NoLife, 2, 4, 6}
    IN Reads(k) \cup {K("del", k), K("getlife", k), K("check", k), K("vpop", k), K("vlen", k), K("mlen", k), Pass}
       \cup {W(op, k, x, l) : op \in {"set", "tryset", "upd"}, x \in Vals, l \in Ls}
       \cup {SL(k, l) : l \in Ls}
       \cup {VP(k, x) : x \in {S("x"), S("y"), I("1")}} \cup {VG(k, i) : i \in {0, 1}}
       \cup {VS(k, i, S("y")) : i \in {0, 1}}
       \cup {MK(op, k, m) : op \in {"mget", "mdel", "mex"}, m \in {I("1"), S("x")}}
       \cup {MS(k, S("x"), x) : x \in {I("1"), I("2"), S("x")}}

(*** index: five keys that are absent, permanent, live with a lifetime, or elapsed ***)
IndexCmds ==
    LET Keys == {"a", "b", "c", "d", "e"}
        Ls == {NoLife, 0, 2000}
    IN UNION {{K("del", k), K("check", k), K("ex", k)}
              \cup {W("set", k, I("1"), l) : l \in Ls}
              \cup {W("upd", k, I("1"), NoLife), W("upd", k, I("1"), 2000), W("tryset", k, I("1"), 2000),
                    W("tryset", k, I("1"), NoLife)}
              \cup {SL(k, l) : l \in Ls} : k \in Keys} \cup {Pass}

SmallLen(d) == \A k \in DOMAIN d : IsVec(d[k].val) => Len(d[k].val.es) <= 2

Cmds == CASE Alphabet = "values" -> ValueCmds
          [] Alphabet \in {"life", "life3"} -> LifeCmds
          [] Alphabet = "lifecoll" -> LifeCollCmds
          [] Alphabet = "index" -> IndexCmds
          [] OTHER -> {}

(*** batches: every short request at every level ***)
BatchAlpha ==
    CASE Alphabet = "batch" ->
           {W("set", "a", I("1"), NoLife), W("set", "a", MkVec("int", <<>>), NoLife), W("upd", "b", I("2"), NoLife),
            W("tryset", "b", I("1"), NoLife), K("get", "a"), VP("a", I("1")), K("del", "b"), Shutdown, K("tryget", "b"),
            K("get", "b")}
      [] Alphabet = "auth" ->
           {W(op, "a", I("1"), NoLife) : op \in {"set", "tryset", "upd"}} \cup Reads("a") \cup {K("del", "a"), K("getlife", "a"),
            K("vpop", "a"), K("vlen", "a"), K("mlen", "a"), VG("a", 0), VP("a", I("1")), VS("a", 0, I("1")),
            MK("mget", "a", I("1")), MK("mdel", "a", I("1")), MK("mex", "a", I("1")), MS("a", I("1"), I("1")),
            SL("a", 2000), SL("a", NoLife), Pass, Shutdown, NullCmd, W("set", "a", MkVec("int", <<I("1")>>), NoLife),
            W("set", "a", MkMap("int", "int", {<<I("1"), I("1")>>}), NoLife)}
      [] OTHER -> {}
BatchLen == IF Alphabet = "batch" THEN 3 ELSE 2
SeqsUpTo(A, n) == UNION {[1..m -> A] : m \in 0..n}
Requests == {[cs |-> cs, lvl |-> l] : cs \in SeqsUpTo(BatchAlpha, BatchLen), l \in Levels}
IsBatch == Alphabet \in {"batch", "auth"}

Age(d) == [k \in DOMAIN d |-> [d[k] EXCEPT !.exp = IF @ > 0 THEN @ - 1 ELSE @]]
Ticking == Alphabet \in {"life", "life3", "lifecoll"}

Init == db = EmptyDb /\ req = [op |-> "init"] /\ rep = <<"init">>

Do == \E c \in Cmds : \E o \in Outcomes(db, 0, c) :
         /\ SmallLen(o.db)
         /\ db' = o.db /\ rep' = o.r /\ req' = c

Request == IsBatch /\ \E q \in Requests : \E o \in Run(db, 0, q.cs, q.lvl) :
         /\ SmallLen(o.db)
         /\ db' = o.db /\ rep' = o.r /\ req' = q

Tick == /\ Ticking
        /\ \E k \in DOMAIN db : db[k].exp > 0
        /\ db' = Age(db) /\ rep' = <<"tick">> /\ req' = [op |-> "tick"]

Next == Do \/ Request \/ Tick
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The properties, on the model.                                           *)
(***************************************************************************)
TypeOK == \A k \in DOMAIN db : WellTyped(db[k].val) /\ db[k].exp >= NoExp

IsCmd(r) == "op" \in DOMAIN r /\ r.op \notin {"tick", "init"}
HasKey(r) == IsCmd(r) /\ "key" \in DOMAIN r
At(d, k) == IF k \in DOMAIN d THEN d[k] ELSE "none"
SameAt(d, e, k) == (k \in DOMAIN d) = (k \in DOMAIN e) /\ (k \in DOMAIN d => d[k] = e[k])

\* C01: no command touches a key it does not name
Isolation == [][HasKey(req') => \A k \in (DOMAIN db \cup DOMAIN db') \ {req'.key} : SameAt(db, db', k)]_vars

\* C01: what was written is what is read
ReadsWhatWasWritten ==
    [][/\ IsCmd(req')
       => /\ (req'.op \in {"set", "tryset", "upd"} /\ rep' \in {ROk, RBool(TRUE)}
              => db'[req'.key].val = req'.val)
          /\ (req'.op = "get" /\ ~IsErr(rep') => rep' = RVal(db[req'.key].val))]_vars

\* C02: an elapsed key answers like a missing one
AsIfAbsent ==
    [][HasKey(req') /\ req'.op # "check" /\ req'.key \in ElapsedKeys(db, 0)
       => \E o \in Outcomes(Remove(db, req'.key), 0, req') : o.r = rep']_vars

\* C02/C03: keys vanish only by delete of that key, a pass, or a check, and live keys only by delete
NoUnaskedLoss ==
    [][IsCmd(req') => \A k \in LiveKeys(db, 0) \ DOMAIN db' : req'.op = "del" /\ req'.key = k]_vars

\* C02: the lifetime changes only by writes and lifetime commands
LifetimeStable ==
    [][HasKey(req') /\ req'.op \notin {"set", "upd", "tryset", "setlife", "del", "check"}
       => \A k \in DOMAIN db : k \in DOMAIN db' /\ db'[k].exp = db[k].exp]_vars

\* C03: a pass removes at most one key, an elapsed one, and reports it
PassSound ==
    [][IsCmd(req') /\ req'.op = "pass"
       => /\ DOMAIN db' \subseteq DOMAIN db
          /\ Cardinality(DOMAIN db \ DOMAIN db') <= 1
          /\ (DOMAIN db \ DOMAIN db') \subseteq ElapsedKeys(db, 0)
          /\ rep' = RSize(Cardinality(DOMAIN db \ DOMAIN db'))
          /\ \A k \in DOMAIN db' : db'[k] = db[k]]_vars
\* C03: whatever is elapsed can be removed by some pass
PassComplete == \A k \in ElapsedKeys(db, 0) : Out(Remove(db, k), RSize(1)) \in PassOutcomes(db, 0)

\* C04: element commands keep the declared type
KeepsKind ==
    [][HasKey(req') /\ req'.op \in VecCmds \cup MapCmds /\ req'.key \in DOMAIN db
       => req'.key \in DOMAIN db' /\ RType(db'[req'.key].val) = RType(db[req'.key].val)]_vars

\* C16: an error, or a refused condition, changes nothing
FailureChangesNothing == [][IsCmd(req') /\ (IsErr(rep') \/ (req'.op = "tryset" /\ rep' = RBool(FALSE))) => db' = db]_vars

IsReq(r) == "cs" \in DOMAIN r
\* C05
AuthAllOrNothing ==
    [][IsReq(req') => /\ (~Permitted(req'.cs, req'.lvl) <=> rep' = RErr("AuthorizationError"))
                      /\ (~Permitted(req'.cs, req'.lvl) => db' = db)
                      /\ (req'.lvl = "read" => db' = db \/ \E i \in DOMAIN req'.cs : req'.cs[i].op = "pass")
                      /\ (rep' = RShut => req'.lvl = "admin")]_vars
\* C06: a permitted request is its commands one by one, up to the first stop
BatchIsPrefixOfCommands ==
    [][IsReq(req') /\ Permitted(req'.cs, req'.lvl) /\ Len(req'.cs) > 0
       => \E o \in Outcomes(db, 0, req'.cs[1]) :
            \/ Stops(o.r) /\ db' = o.db /\ rep' = o.r
            \/ /\ ~Stops(o.r)
               /\ Len(req'.cs) = 1 => db' = o.db /\ rep' = o.r
               /\ Len(req'.cs) > 1 => \E p \in Run(o.db, 0, Tail(req'.cs), req'.lvl) : p.db = db' /\ p.r = rep']_vars
EmptyIsNull == [][IsReq(req') /\ req'.cs = <<>> => rep' = RNull /\ db' = db]_vars

(***************************************************************************)
(* Emission                                                                *)
(***************************************************************************)
J(d) == {[k |-> k, val |-> d[k].val, exp |-> d[k].exp] : k \in DOMAIN d}
Emit == Emitting => PrintT(ToJson(<<"E", J(db), req', rep', IF db' = db THEN "=" ELSE "#", IF db' = db THEN {} ELSE J(db')>>))
=============================================================================
