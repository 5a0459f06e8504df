------------------------------- MODULE LangGen -------------------------------
(* Bounded exploration of the query language.                                *)
(*   Mode "tokens": every sequence of sample tokens that some continuation   *)
(*     could still complete, and every one-token extension of it, up to      *)
(*     MaxLen tokens; what each means is printed for replay.                 *)
(*   Mode "chars": every text of up to MaxLen characters of a small alphabet,*)
(*     in several contexts.                                                  *)
(*   Mode "round": every command over small sets of names and values, written*)
(*     out and understood again: the language loses nothing.                 *)
EXTENDS Lang, LangFloats, Json, TLC

CONSTANTS Mode, MaxLen

VARIABLES s, ctx
vars == <<s, ctx>>

Half == [lit |-> <<49,46,53>>, neg |-> 0, m |-> 12582912, e |-> -23, inf |-> FALSE]                \* 1.5
Tenth == [lit |-> <<45,48,46,49>>, neg |-> 1, m |-> 13421773, e |-> -27, inf |-> FALSE]            \* -0.1
Zero == [lit |-> <<48,46>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE]                         \* 0.
\* the short literals the character mode runs into: digits 0, 7; one point; up to four characters
Floats == << Half, Tenth, Zero >>

Emit(x) == PrintT("@" \o ToJson(x))

(*** tokens ***)
Samples == << Kw("get"), Kw("set"), Kw("vget"), Kw("vset"), Kw("vpush"), Kw("mget"), Kw("mset"), Kw("shutdown"),
              Kw("int"), Kw("str"), Kw("bool"), Kw("true"), Kw("none"),
              TId(<<97>>), TInt(<<49>>), TInt(<<45, 50>>), TFloat(<<0, 12582912, -23>>), TStr(<<120>>),
              P(Semi), P(Comma), P(Colon), P(LBrack), P(RBrack), P(LCurly), P(RCurly) >>
Toks(ix) == [i \in DOMAIN ix |-> Samples[ix[i]]]
Viable(p) == IF p.ok THEN TRUE ELSE p.more

Spell(tk) == CASE tk.k = "kw" -> SpellingOf(tk.w)
               [] tk.k = "id" -> tk.v
               [] tk.k = "int" -> tk.v
               [] tk.k = "float" -> Half.lit
               [] tk.k = "str" -> <<Quote>> \o tk.v \o <<Quote>>
               [] tk.k = "p" -> <<tk.c>>
RECURSIVE SpellAll(_, _, _)
SpellAll(ts, i, sep) == IF i > Len(ts) THEN <<>> ELSE Spell(ts[i]) \o sep \o SpellAll(ts, i + 1, sep)

TokenNext ==
    /\ Mode = "tokens" /\ Len(s) < MaxLen /\ Viable(Parse(Toks(s)))
    /\ \E i \in DOMAIN Samples :
         LET t == Append(s, i)
             p == Parse(Toks(t))
         IN /\ Emit([s |-> t, cs |-> IF p.ok THEN p.cs ELSE <<>>, ok |-> p.ok])
            /\ s' = t
    /\ UNCHANGED ctx

\* spelled with any white space between, the tokens come back
Spaced == Mode = "tokens" =>
    \A sep \in {<<32>>, <<9, 160>>} : Lex(SpellAll(Toks(s), 1, sep), Floats) = Lexed("ok", Toks(s))

(*** characters ***)
Chars == <<97, 69, 48, 55, 45, 46, 34, 92, 110, 32, 10, 160, 59, 44, 58, 91, 93, 123, 125, 95, 35, 233, 201>>
Contexts == << <<>>, \* nothing before it
               <<115,101,116,32,107,32>>,                               \* set k
               <<115,101,116,32,107,32,115,116,114,32,91>>,             \* set k str [
               <<109,103,101,116,32,107,32,34>>,                        \* mget k "
               <<103,101,116,32>> >>                                    \* get
\* every float literal over these digits and the point, of at most four characters
CharFloats == ShortFloats
CharNext ==
    /\ Mode = "chars" /\ Len(s) < MaxLen
    /\ \E i \in DOMAIN Chars :
         LET t == Append(s, Chars[i])
             u == Understand(Contexts[ctx] \o t, CharFloats)
         IN /\ Assert(u.st # "unknown", s) /\ Emit([t |-> Contexts[ctx] \o t, ok |-> u.st = "ok", cs |-> IF u.st = "ok" THEN u.cs ELSE <<>>])
            /\ s' = t
    /\ UNCHANGED ctx

(*** round trip ***)
Names == {<<97>>, <<95, 49>>, <<233, 120>>}
StrV(x) == Scalar("str", x)
IntV(x) == Scalar("int", x)
Scalars == {Scalar("bool", TrueText), Scalar("bool", FalseText), IntV(<<48>>), IntV(<<45>> \o MinI64), IntV(MaxI64),
            Scalar("float", <<0, 12582912, -23>>), StrV(<<>>), StrV(<<34, 92, 110>>), StrV(<<10, 9, 13, 32, 59>>), StrV(<<65, 97, 201, 128512>>)}
Vecs == {[t |-> "vec", et |-> et, es |-> <<>>] : et \in TypeWords}
        \cup {[t |-> "vec", et |-> "str", es |-> <<StrV(<<>>), StrV(<<93, 44>>)>>], [t |-> "vec", et |-> "bool", es |-> <<Scalar("bool", TrueText)>>]}
Maps == {[t |-> "map", kt |-> kt, et |-> et, m |-> {}] : kt \in KeyWords, et \in TypeWords}
        \cup {[t |-> "map", kt |-> "str", et |-> "int", m |-> {<<StrV(<<58>>), IntV(<<49>>)>>, <<StrV(<<>>), IntV(<<48>>)>>}],
              [t |-> "map", kt |-> "int", et |-> "str", m |-> {<<IntV(<<45, 49>>), StrV(<<125>>)>>}]}
Vals == Scalars \cup Vecs \cup Maps
Lifes == {NoLifetime, <<48>>, <<55>>, MaxI64}
Counts == {<<48>>, MaxI64}
MapKeys1 == {IntV(<<45, 55>>), StrV(<<32>>), StrV(<<34>>)}
AllCommands ==
    {[op |-> o, key |-> k] : o \in {"get", "tryget", "ex", "del", "type", "vpop", "vlen", "mlen"}, k \in Names}
    \cup {[op |-> o, key |-> k, val |-> v, life |-> l] : o \in {"set", "tryset", "upd"}, k \in Names, v \in Vals, l \in Lifes}
    \cup {[op |-> o, key |-> k, val |-> NullValue, life |-> NoLifetime] : o \in {"set", "tryset", "upd"}, k \in Names}
    \cup {[op |-> "vget", key |-> k, i |-> i] : k \in Names, i \in Counts}
    \cup {[op |-> "vset", key |-> k, i |-> i, val |-> v] : k \in Names, i \in Counts, v \in Scalars}
    \cup {[op |-> "vpush", key |-> k, val |-> v] : k \in Names, v \in Scalars}
    \cup {[op |-> o, key |-> k, mk |-> m] : o \in {"mget", "mdel", "mex"}, k \in Names, m \in MapKeys1}
    \cup {[op |-> "mset", key |-> k, mk |-> m, val |-> v] : k \in Names, m \in MapKeys1, v \in Scalars}
    \cup {[op |-> "shutdown"]}
Short == {[op |-> "get", key |-> <<97>>], [op |-> "set", key |-> <<97>>, val |-> IntV(<<49>>), life |-> <<55>>],
          [op |-> "set", key |-> <<97>>, val |-> NullValue, life |-> NoLifetime], [op |-> "shutdown"]}

RECURSIVE Escaped(_, _)
Escaped(v, i) == IF i > Len(v) THEN <<>>
                 ELSE (CASE v[i] \in {Quote, Backslash} -> <<Backslash, v[i]>>
                         [] v[i] = 10 -> <<Backslash, 110>>
                         [] OTHER -> <<v[i]>>) \o Escaped(v, i + 1)
WriteScalar(x) == CASE x.t = "bool" -> x.v [] x.t = "int" -> x.v [] x.t = "float" -> Half.lit
                    [] x.t = "str" -> <<Quote>> \o Escaped(x.v, 1) \o <<Quote>>
RECURSIVE Joined(_, _)
Joined(xs, i) == IF i > Len(xs) THEN <<>> ELSE (IF i > 1 THEN <<Comma>> ELSE <<>>) \o xs[i] \o Joined(xs, i + 1)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
Sp == <<32>>
WriteValue(x) ==
    CASE x.t = "null" -> <<>>
      [] x.t = "vec" -> SpellingOf(x.et) \o Sp \o <<LBrack>> \o Joined([i \in DOMAIN x.es |-> WriteScalar(x.es[i])], 1) \o <<RBrack>>
      [] x.t = "map" -> LET ps == Listed(x.m) IN
            SpellingOf(x.kt) \o Sp \o SpellingOf(x.et) \o Sp \o <<LCurly>>
            \o Joined([i \in DOMAIN ps |-> WriteScalar(ps[i][1]) \o <<Colon>> \o WriteScalar(ps[i][2])], 1) \o <<RCurly>>
      [] OTHER -> WriteScalar(x)
WordOf(op) == SpellingOf(IF op = "tryget" THEN "try_get" ELSE IF op = "tryset" THEN "try_set" ELSE op)
WriteCommand(c) ==
    WordOf(c.op) \o (IF "key" \in DOMAIN c THEN Sp \o c.key ELSE <<>>)
    \o (IF "i" \in DOMAIN c THEN Sp \o c.i ELSE <<>>)
    \o (IF "mk" \in DOMAIN c THEN Sp \o WriteScalar(c.mk) ELSE <<>>)
    \o (IF "val" \in DOMAIN c THEN Sp \o WriteValue(c.val) ELSE <<>>)
    \o (IF "life" \in DOMAIN c THEN Sp \o c.life ELSE <<>>)
RECURSIVE WriteAll(_, _)
WriteAll(cs, i) == IF i > Len(cs) THEN <<>> ELSE WriteCommand(cs[i]) \o <<Semi>> \o WriteAll(cs, i + 1)

\* s is a sequence of commands here
RoundNext ==
    /\ Mode = "round" /\ Len(s) < MaxLen
    /\ \E c \in (IF s = <<>> THEN AllCommands ELSE Short) :
         LET cs == Append(s, c) IN
         /\ Emit([t |-> WriteAll(cs, 1), ok |-> TRUE, cs |-> cs])
         /\ s' = cs
    /\ UNCHANGED ctx
RoundTrip == Mode = "round" => Understand(WriteAll(s, 1), Floats) = [st |-> "ok", cs |-> s]

Init == s = <<>> /\ ctx \in (IF Mode = "chars" THEN DOMAIN Contexts ELSE {1})
Next == TokenNext \/ CharNext \/ RoundNext
Spec == Init /\ [][Next]_vars
=============================================================================
