------------------------------- MODULE Store -------------------------------
(* The key-value store of rust-store as one abstract object: a partial map   *)
(* from keys to entries (value, deadline), the commands of the query         *)
(* language, what each replies and what it does to the map.                  *)
(*                                                                           *)
(* Everything is an operator on explicit arguments, so the same definitions  *)
(* are used by the exhaustively checked models and behaviour generators          *)
(* (StoreGen, HashStore, Service, Pipeline) and by the trace checkers        *)
(* (StoreTrace, ServiceTrace).                                               *)
(*                                                                           *)
(* Time is counted in ticks, T of them per second.  A lifetime is a whole    *)
(* number of seconds, written in ticks; given at `now' it sets the deadline  *)
(* now + life.  The real clock strictly advances between two commands, so an *)
(* entry whose deadline is `now' has already elapsed.                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS T,
          NoContent     \* the content of the null value (a string, or <<>> where contents are tuples)

NoExp == -1          \* entry without a lifetime
NoLife == -1         \* command without a lifetime
HugeLife == -2       \* a lifetime whose deadline is not representable

(***************************************************************************)
(* Values.  Scalars carry their content as an opaque string.               *)
(***************************************************************************)
Null == [t |-> "null", v |-> NoContent]
ScalarTypes == {"bool", "int", "float", "str"}
KeyTypes == {"int", "str"}
MkVec(et, es) == [t |-> "vec", et |-> et, es |-> es]
MkMap(kt, et, m) == [t |-> "map", kt |-> kt, et |-> et, m |-> m]   \* m: set of <<key, value>>
IsVec(x) == x.t = "vec"
IsMap(x) == x.t = "map"

MapKeys(m) == {p[1] : p \in m}
MapAt(m, k) == (CHOOSE p \in m : p[1] = k)[2]
MapPut(m, k, x) == {p \in m : p[1] # k} \cup {<<k, x>>}
MapDel(m, k) == {p \in m : p[1] # k}

(* What a well-formed stored value is: collections hold only what they declare. *)
WellTyped(x) ==
    CASE x.t = "vec" -> \A i \in DOMAIN x.es : x.es[i].t = x.et
      [] x.t = "map" -> /\ \A p \in x.m : p[1].t = x.kt /\ p[2].t = x.et
                        /\ \A p, q \in x.m : p[1] = q[1] => p = q
      [] OTHER -> x.t \in ScalarTypes \cup {"null"}

(***************************************************************************)
(* Replies                                                                 *)
(***************************************************************************)
RVal(x)  == <<"val", x>>
ROk      == <<"ok">>
RBool(b) == <<"bool", IF b THEN "true" ELSE "false">>
RSize(n) == <<"size", n>>
RLife(n) == <<"life", n>>       \* in ticks; -1: no lifetime
RType(x) == IF IsVec(x) THEN <<"type", "vec", x.et>>
            ELSE IF IsMap(x) THEN <<"type", "map", x.kt, x.et>>
            ELSE <<"type", x.t>>
RErr(e)  == <<"err", e>>
RNull    == <<"null">>
RShut    == <<"shutdown">>
IsErr(r) == r[1] = "err"

(***************************************************************************)
(* Keys and entries                                                        *)
(***************************************************************************)
Entry(x, e) == [val |-> x, exp |-> e]
EmptyDb == [k \in {} |-> Entry(Null, NoExp)]

Elapsed(e, now) == e.exp # NoExp /\ now >= e.exp
Live(db, now, k) == k \in DOMAIN db /\ ~Elapsed(db[k], now)
LiveKeys(db, now) == {k \in DOMAIN db : ~Elapsed(db[k], now)}
ElapsedKeys(db, now) == {k \in DOMAIN db : Elapsed(db[k], now)}
Tracked(db) == {k \in DOMAIN db : db[k].exp # NoExp}

Put(db, k, ent) == [j \in DOMAIN db \cup {k} |-> IF j = k THEN ent ELSE db[j]]
Remove(db, k) == [j \in DOMAIN db \ {k} |-> db[j]]
SetVal(db, k, x) == [db EXCEPT ![k].val = x]

Deadline(life, now) == IF life = NoLife THEN NoExp ELSE now + life
WholeSeconds(ticks) == (ticks \div T) * T
Out(db, r) == [db |-> db, r |-> r]
Same(db, r) == {Out(db, r)}

(***************************************************************************)
(* Outcomes(db, now, c): the set of [db, r] a single command may produce.  *)
(* It is a singleton except for an expiry pass (which samples one of the   *)
(* tracked keys) and where two errors apply at once.                       *)
(***************************************************************************)
DataCmds == {"set", "tryset", "upd", "del", "get", "tryget", "ex", "type",
             "getlife", "setlife"}
VecCmds == {"vget", "vset", "vpush", "vpop", "vlen"}
MapCmds == {"mget", "mset", "mdel", "mlen", "mex"}

Missing(db, now, k, ok) == IF Live(db, now, k) THEN ok ELSE Same(db, RErr("KeyError"))

WriteOutcomes(db, now, c) ==
    LET k == c.key
        live == Live(db, now, k)
        put == Put(db, k, Entry(c.val, Deadline(c.life, now)))
    IN IF c.life = HugeLife
       THEN Same(db, RErr("ParseError"))
            \cup (IF c.op = "upd" /\ ~live THEN Same(db, RErr("KeyError")) ELSE {})
            \cup (IF c.op = "tryset" /\ live THEN Same(db, RBool(FALSE)) ELSE {})
       ELSE CASE c.op = "set" -> Same(put, ROk)
              [] c.op = "tryset" -> IF live THEN Same(db, RBool(FALSE)) ELSE Same(put, RBool(TRUE))
              [] c.op = "upd" -> IF live THEN Same(put, ROk) ELSE Same(db, RErr("KeyError"))

LifeOutcomes(db, now, c) ==
    LET k == c.key
        live == Live(db, now, k)
    IN IF c.op = "setlife"
       THEN IF c.life = HugeLife
            THEN Same(db, RErr("ParseError")) \cup (IF live THEN {} ELSE Same(db, RErr("KeyError")))
            ELSE Missing(db, now, k, Same([db EXCEPT ![k].exp = Deadline(c.life, now)], ROk))
       ELSE Missing(db, now, k,
                Same(db, RLife(IF db[k].exp = NoExp THEN -1 ELSE WholeSeconds(db[k].exp - now - 1))))

(* Index i of a vector command is 0-based; huge positions are given as -1. *)
InRange(es, i) == i >= 0 /\ i < Len(es)

VecOutcomes(db, now, c) ==
    LET k == c.key
        x == db[k].val
    IN Missing(db, now, k,
       IF ~IsVec(x) THEN Same(db, RErr("TypeError")) ELSE
       CASE c.op = "vlen" -> Same(db, RSize(Len(x.es)))
         [] c.op = "vget" -> IF InRange(x.es, c.i) THEN Same(db, RVal(x.es[c.i + 1]))
                             ELSE Same(db, RErr("IndexError"))
         [] c.op = "vpush" -> IF c.val.t # x.et THEN Same(db, RErr("TypeError"))
                              ELSE Same(SetVal(db, k, MkVec(x.et, Append(x.es, c.val))), ROk)
         [] c.op = "vpop" -> IF x.es = <<>> THEN Same(db, RVal(Null))
                             ELSE Same(SetVal(db, k, MkVec(x.et, SubSeq(x.es, 1, Len(x.es) - 1))),
                                       RVal(x.es[Len(x.es)]))
         [] c.op = "vset" ->
              (IF c.val.t # x.et THEN Same(db, RErr("TypeError")) ELSE {})
              \cup (IF ~InRange(x.es, c.i) THEN Same(db, RErr("IndexError")) ELSE {})
              \cup (IF c.val.t = x.et /\ InRange(x.es, c.i)
                    THEN Same(SetVal(db, k, MkVec(x.et, [x.es EXCEPT ![c.i + 1] = c.val])), ROk)
                    ELSE {}))

MapOutcomes(db, now, c) ==
    LET k == c.key
        x == db[k].val
        have == c.mk \in MapKeys(x.m)
    IN Missing(db, now, k,
       IF ~IsMap(x) THEN Same(db, RErr("TypeError"))
       ELSE IF c.op = "mlen" THEN Same(db, RSize(Cardinality(x.m)))
       ELSE IF c.mk.t # x.kt THEN Same(db, RErr("TypeError"))
       ELSE
       CASE c.op = "mget" -> IF have THEN Same(db, RVal(MapAt(x.m, c.mk)))
                             ELSE Same(db, RErr("IndexError"))
         [] c.op = "mex" -> Same(db, RBool(have))
         [] c.op = "mset" -> IF c.val.t # x.et THEN Same(db, RErr("TypeError"))
                             ELSE Same(SetVal(db, k, MkMap(x.kt, x.et, MapPut(x.m, c.mk, c.val))), ROk)
         [] c.op = "mdel" -> Same(SetVal(db, k, MkMap(x.kt, x.et, MapDel(x.m, c.mk))), RBool(have)))

(* An expiry pass looks at one tracked key of its choice. *)
PassOutcomes(db, now) ==
    IF Tracked(db) = {} THEN Same(db, RSize(0))
    ELSE {IF Elapsed(db[k], now) THEN Out(Remove(db, k), RSize(1)) ELSE Out(db, RSize(0))
          : k \in Tracked(db)}

Outcomes(db, now, c) ==
    CASE c.op \in {"set", "tryset", "upd"} -> WriteOutcomes(db, now, c)
      [] c.op = "del" -> Same(IF c.key \in DOMAIN db THEN Remove(db, c.key) ELSE db,
                              RBool(Live(db, now, c.key)))
      [] c.op = "get" -> Missing(db, now, c.key, Same(db, RVal(db[c.key].val)))
      [] c.op = "tryget" -> Same(db, RVal(IF Live(db, now, c.key) THEN db[c.key].val ELSE Null))
      [] c.op = "ex" -> Same(db, RBool(Live(db, now, c.key)))
      [] c.op = "type" -> Missing(db, now, c.key, Same(db, RType(db[c.key].val)))
      [] c.op \in {"setlife", "getlife"} -> LifeOutcomes(db, now, c)
      [] c.op \in VecCmds -> VecOutcomes(db, now, c)
      [] c.op \in MapCmds -> MapOutcomes(db, now, c)
      [] c.op = "pass" -> PassOutcomes(db, now)
      [] c.op = "null" -> Same(db, RNull)
      [] c.op = "shutdown" -> Same(db, RShut)
      \* storage-level: remove this key if it has elapsed
      [] c.op = "check" -> IF c.key \notin DOMAIN db THEN Same(db, RErr("KeyError"))
                           ELSE IF Elapsed(db[c.key], now) THEN Same(Remove(db, c.key), RBool(TRUE))
                           ELSE Same(db, RBool(FALSE))

(***************************************************************************)
(* Authorization and requests (batches of commands)                        *)
(***************************************************************************)
Levels == {"admin", "write", "read"}
WriteCmds == {"set", "tryset", "upd", "del", "setlife", "vset", "vpush", "vpop", "mset", "mdel"}
Needs(c) == IF c.op = "shutdown" THEN {"admin"}
            ELSE IF c.op \in WriteCmds THEN {"admin", "write"}
            ELSE Levels
Permitted(cs, level) == \A i \in DOMAIN cs : level \in Needs(cs[i])

Stops(r) == IsErr(r) \/ r = RShut

RECURSIVE RunFrom(_, _, _, _)
RunFrom(db, now, cs, r) ==
    IF cs = <<>> THEN {Out(db, r)}
    ELSE UNION {IF Stops(o.r) THEN {o} ELSE RunFrom(o.db, now, Tail(cs), o.r)
                : o \in Outcomes(db, now, Head(cs))}

Run(db, now, cs, level) ==
    IF Permitted(cs, level) THEN RunFrom(db, now, cs, RNull)
    ELSE Same(db, RErr("AuthorizationError"))
=============================================================================
