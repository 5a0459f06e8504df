-------------------------------- MODULE Reply --------------------------------
(* What the bytes of a reply say, as a reply of the store model.             *)
(* Contents of scalars are code points (Lang's representation).              *)
EXTENDS Http, HttpTexts, Float32

IsTagged(j, n) == j.j = "o" /\ Len(j.ps) = 1 /\ j.ps[1].k = n
Inside(j) == j.ps[1].x
IsName(j, n) == j.j = "s" /\ j.s = n
TypeNames == [int |-> N_Int, float |-> N_Float, str |-> N_String, bool |-> N_Bool]
IsTypeName(j, t) == IsName(j, TypeNames[t])

(* a JSON number and a float: the number's nearest float *)
NumParts(s) ==
    LET neg == s[1] = 45
        body == IF neg THEN Tail(s) ELSE s
        e == FirstOf(body, {69, 101})
        man == SubSeq(body, 1, e - 1)
        ex == SubSeq(body, e + 1, Len(body))
        eneg == ex # <<>> /\ ex[1] = 45
        eds == IF ex # <<>> /\ ex[1] \in JSign THEN Tail(ex) ELSE ex
        p == FirstOf(man, {46})
        fp == SubSeq(man, p + 1, Len(man))
        ds == SubSeq(man, 1, p - 1) \o fp
        x == IF eds = <<>> THEN 0 ELSE SmallNum(eds)
    IN [neg |-> neg, ds |-> [i \in DOMAIN ds |-> ds[i] - 48], x |-> (IF eneg THEN -x ELSE x) - Len(fp)]
IsFloatNumber(j, v) == j.j = "n" /\ LET p == NumParts(j.s) IN
    NearestTo(p.ds, p.x, v[2], v[3]) /\ (v[2] # 0 => (p.neg <=> v[1] = 1))

ScalarSays(j, x) ==
    CASE x.t = "int" -> IsTagged(j, N_Int) /\ Inside(j).j = "n" /\ Inside(j).s = x.v
      [] x.t = "str" -> IsTagged(j, N_String) /\ IsName(Inside(j), x.v)
      [] x.t = "bool" -> IsTagged(j, N_Bool) /\ Inside(j).j = "b" /\ Inside(j).b = (x.v = N_true)
      [] x.t = "float" -> IsTagged(j, N_Float) /\ IsFloatNumber(Inside(j), x.v)
      [] x.t = "null" -> IsName(j, N_Null)
      [] OTHER -> FALSE

VecSays(j, x) ==
    /\ IsTagged(j, N_Vector) /\ Inside(j).j = "o"
    /\ LET o == Inside(j)
           es == Member(o, N_vector)
           ct == Member(o, N_collection_type)
       IN /\ Len(o.ps) = 2 /\ IsTypeName(ct, x.et)
          /\ es.j = "a" /\ Len(es.es) = Len(x.es)
          /\ \A i \in DOMAIN x.es : ScalarSays(es.es[i], x.es[i])
MapSays(j, x) ==
    /\ IsTagged(j, N_Map) /\ Inside(j).j = "o"
    /\ LET o == Inside(j)
           es == Member(o, N_map)
       IN /\ Len(o.ps) = 3 /\ IsTypeName(Member(o, N_collection_type), x.et) /\ IsTypeName(Member(o, N_key_type), x.kt)
          /\ es.j = "a" /\ Len(es.es) = Cardinality(x.m)
          /\ \A i \in DOMAIN es.es : es.es[i].j = "a" /\ Len(es.es[i].es) = 2
          \* as many pairs as entries, and every entry among them
          /\ \A p \in x.m : \E i \in DOMAIN es.es : ScalarSays(es.es[i].es[1], p[1]) /\ ScalarSays(es.es[i].es[2], p[2])
ValueSays(j, x) == CASE x.t = "vec" -> VecSays(j, x) [] x.t = "map" -> MapSays(j, x) [] OTHER -> ScalarSays(j, x)

CountSays(j, n) == j.j = "n" /\ DecDigits(j.s) /\ Len(j.s) < 10 /\ SmallNum(j.s) = n

\* the payload j is the JSON of the (successful) reply r
ResultSays(j, r) ==
    CASE r[1] = "null" -> IsName(j, N_Null)
      [] r[1] = "shutdown" -> IsName(j, N_ShuttingDown)
      [] r[1] = "ok" -> IsTagged(j, N_Message) /\ IsName(Inside(j), N_Ok)
      [] r[1] = "val" -> IsTagged(j, N_Value) /\ ValueSays(Inside(j), r[2])
      [] r[1] = "bool" -> IsTagged(j, N_Bool) /\ Inside(j).j = "b" /\ Inside(j).b = (r[2] = "true")
      [] r[1] = "size" -> IsTagged(j, N_Size) /\ CountSays(Inside(j), r[2])
      [] r[1] = "life" -> IsTagged(j, N_Expiration) /\ IF r[2] < 0 THEN Inside(j).j = "z" ELSE CountSays(Inside(j), r[2])
      [] r[1] = "type" -> /\ IsTagged(j, N_ValueType)
                          /\ LET t == Inside(j) IN
                             CASE r[2] = "null" -> IsName(t, N_Null)
                               [] r[2] = "vec" -> IsTagged(t, N_Vector) /\ IsTypeName(Inside(t), r[3])
                               [] r[2] = "map" -> IsTagged(t, N_Map) /\ Inside(t).j = "a" /\ Len(Inside(t).es) = 2
                                                  /\ IsTypeName(Inside(t).es[1], r[3]) /\ IsTypeName(Inside(t).es[2], r[4])
                               [] OTHER -> IsTypeName(t, r[2])
      [] OTHER -> FALSE

\* the error kind a payload of error text names, "" if none
ErrorNamed(cps) ==
    LET is == {e \in ErrorNames : Len(cps) > Len(e.c) + 1 /\ SubSeq(cps, 1, Len(e.c)) = e.c /\ cps[Len(e.c) + 1] = COLON}
    IN IF is = {} THEN "" ELSE (CHOOSE e \in is : TRUE).n

(* Parsed reply: [ok |-> FALSE] or [ok, status, text (code points), j]      *)
ParsedReply(bytes) ==
    LET p == TLCEval(ReplyParts(bytes)) IN
    IF ~CompleteReply(p) THEN [ok |-> FALSE]
    ELSE LET u == TLCEval(Utf8(p.payload)) IN
         IF ~u.ok THEN [ok |-> FALSE]
         ELSE [ok |-> TRUE, status |-> p.status, text |-> u.cps,
               json |-> IF p.status = StatusOf("ok") THEN ParseJson(u.cps) ELSE [st |-> "none"]]

\* the parsed reply says r, a reply of the store model
ReplySays(p, r) ==
    /\ p.ok
    /\ IF r[1] = "err" THEN p.status = StatusOf(r[2]) /\ ErrorNamed(p.text) = r[2]
       ELSE p.status = StatusOf("ok") /\ p.json.st = "ok" /\ ResultSays(p.json.x, r)
=============================================================================
