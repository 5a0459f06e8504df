------------------------------ MODULE HashStore ------------------------------
(* The store as the code keeps it: a hash map whose entries remember their   *)
(* position in a separate vector of expiring keys, from which keys are       *)
(* removed by swapping in the last one.  Checked against Store.tla: every    *)
(* step of this model is a step the abstract store allows (Refines), and the *)
(* two structures never disagree (IndexOK).                                  *)
(*                                                                           *)
(* Deadlines are abstracted to none / elapsed (0) / ahead (FAR), with an     *)
(* Elapse step that lets a deadline pass.                                    *)
EXTENDS Store, TLC

CONSTANT Keys

VARIABLES st,     \* key -> [val, exp, idx]   (idx = 0: not in the vector)
          ek,     \* the vector of expiring keys
          last    \* the command just run and its reply
vars == <<st, ek, last>>

FAR == 1000
One == [t |-> "int", v |-> "1"]
Exps == {NoExp, 0, FAR}
Hid(e) == e.exp = 0

Drop(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
Ins(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]

\* invalidate_key_index: swap_remove position i
SwapRemove(f, v, i) ==
    LET n == Len(v)
        w == [j \in 1..(n - 1) |-> IF j = i THEN v[n] ELSE v[j]]
        g == IF i = n THEN f ELSE [f EXCEPT ![v[n]].idx = i]
    IN <<g, w>>

Cmd(op, k) == [op |-> op, key |-> k]
WCmd(op, k, e) == [op |-> op, key |-> k, val |-> One, life |-> e]
Say(c, r) == last' = [cmd |-> c, r |-> r]

(* set: reuse the position when there is one, drop it when the new entry has no deadline *)
Store_(k, e) ==
    LET i == IF k \in DOMAIN st THEN st[k].idx ELSE 0
    IN IF i = 0 /\ e = NoExp THEN st' = Ins(st, k, [val |-> One, exp |-> e, idx |-> 0]) /\ ek' = ek
       ELSE IF i = 0 THEN st' = Ins(st, k, [val |-> One, exp |-> e, idx |-> Len(ek) + 1]) /\ ek' = Append(ek, k)
       ELSE IF e # NoExp THEN st' = Ins(st, k, [val |-> One, exp |-> e, idx |-> i]) /\ ek' = ek
       ELSE LET p == SwapRemove(st, ek, i)
            IN st' = Ins(p[1], k, [val |-> One, exp |-> e, idx |-> 0]) /\ ek' = p[2]

Live_(k) == k \in DOMAIN st /\ ~Hid(st[k])

Set(k, e) == Store_(k, e) /\ Say(WCmd("set", k, e), ROk)
TrySet(k, e) == IF Live_(k) THEN UNCHANGED <<st, ek>> /\ Say(WCmd("tryset", k, e), RBool(FALSE))
                ELSE Store_(k, e) /\ Say(WCmd("tryset", k, e), RBool(TRUE))
Update(k, e) == IF Live_(k) THEN Store_(k, e) /\ Say(WCmd("upd", k, e), ROk)
                ELSE UNCHANGED <<st, ek>> /\ Say(WCmd("upd", k, e), RErr("KeyError"))

Unlink(k) == IF st[k].idx = 0 THEN st' = Drop(st, k) /\ ek' = ek
             ELSE LET p == SwapRemove(st, ek, st[k].idx) IN st' = Drop(p[1], k) /\ ek' = p[2]

Delete(k) == IF k \notin DOMAIN st THEN UNCHANGED <<st, ek>> /\ Say(Cmd("del", k), RBool(FALSE))
             ELSE Unlink(k) /\ Say(Cmd("del", k), RBool(~Hid(st[k])))

SetLife(k, e) ==
    LET c == [op |-> "setlife", key |-> k, life |-> e] IN
    IF ~Live_(k) THEN UNCHANGED <<st, ek>> /\ Say(c, RErr("KeyError"))
    ELSE /\ Say(c, ROk)
         /\ IF st[k].exp = NoExp /\ e # NoExp
            THEN st' = [st EXCEPT ![k].exp = e, ![k].idx = Len(ek) + 1] /\ ek' = Append(ek, k)
            ELSE IF st[k].exp # NoExp /\ e = NoExp
            THEN LET p == SwapRemove(st, ek, st[k].idx)
                 IN st' = [p[1] EXCEPT ![k].exp = NoExp, ![k].idx = 0] /\ ek' = p[2]
            ELSE st' = [st EXCEPT ![k].exp = e] /\ ek' = ek

CheckAndExpire(k) == IF Hid(st[k]) THEN Unlink(k) ELSE UNCHANGED <<st, ek>>

Pass == IF ek = <<>> THEN UNCHANGED <<st, ek>> /\ Say([op |-> "pass"], RSize(0))
        ELSE \E i \in DOMAIN ek : CheckAndExpire(ek[i]) /\ Say([op |-> "pass"], RSize(IF Hid(st[ek[i]]) THEN 1 ELSE 0))

Check(k) == IF k \notin DOMAIN st THEN UNCHANGED <<st, ek>> /\ Say(Cmd("check", k), RErr("KeyError"))
            ELSE CheckAndExpire(k) /\ Say(Cmd("check", k), RBool(Hid(st[k])))

Elapse(k) == k \in DOMAIN st /\ st[k].exp = FAR /\ st' = [st EXCEPT ![k].exp = 0] /\ ek' = ek /\ Say([op |-> "elapse", key |-> k], <<"-">>)

Init == st = [k \in {} |-> 0] /\ ek = <<>> /\ last = [cmd |-> [op |-> "init"], r |-> <<"-">>]
Next == \/ Pass
        \/ \E k \in Keys : Delete(k) \/ Check(k) \/ Elapse(k)
                           \/ \E e \in Exps : Set(k, e) \/ TrySet(k, e) \/ Update(k, e) \/ SetLife(k, e)
Spec == Init /\ [][Next]_vars /\ WF_vars(Pass)
View == <<st, ek>>

\* the two structures agree
IndexOK == /\ \A i \in DOMAIN ek : ek[i] \in DOMAIN st /\ st[ek[i]].idx = i
           /\ \A k \in DOMAIN st : (st[k].idx # 0) = (st[k].exp # NoExp)
           /\ \A k \in DOMAIN st : st[k].idx # 0 => st[k].idx \in DOMAIN ek /\ ek[st[k].idx] = k

Abs(s) == [k \in DOMAIN s |-> Entry(s[k].val, s[k].exp)]
CountsOK == Len(ek) = Cardinality(Tracked(Abs(st)))

\* every step is one of the abstract store's (a lifetime here is a deadline: `now' is 0)
Refines == [][\/ last'.cmd.op = "elapse"
              \/ Out(Abs(st'), last'.r) \in Outcomes(Abs(st), 0, last'.cmd)]_vars
=============================================================================
