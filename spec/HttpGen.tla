------------------------------ MODULE HttpGen ------------------------------
(* Byte streams a client may send, put together from the texts of HttpTexts: *)
(* a plain request with up to MaxOdd of its parts replaced.  TLC prints each *)
(* stream with what every one of its prefixes means; the harness delivers    *)
(* them to the real readers, split and closed in many ways, and compares.    *)
EXTENDS Http, HttpTexts, Json

CONSTANT MaxOdd

Digits(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
             ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE Join(_, _)
Join(parts, d) == IF parts = <<>> THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o d \o Join(Tail(parts), d)
RECURSIVE Cat(_, _)
Cat(hs, eol) == IF hs = <<>> THEN <<>> ELSE Head(hs) \o eol \o Cat(Tail(hs), eol)

Plain == [line |-> 1, eol |-> 1, len |-> 1, other |-> 2, body |-> 1, excess |-> 1, off |-> 0, first |-> TRUE]
Eols == << <<CR, LF>>, <<LF>> >>
Variants == [line |-> DOMAIN Lines, eol |-> DOMAIN Eols, len |-> DOMAIN Lengths, other |-> DOMAIN Others, body |-> DOMAIN Bodies,
            excess |-> DOMAIN Excess, off |-> {-1, 0, 1}, first |-> BOOLEAN]
Fields == DOMAIN Plain
Changed(c) == {f \in Fields : c[f] # Plain[f]}
OneOff(c) == UNION {{[c EXCEPT ![f] = v] : v \in Variants[f]} : f \in Fields}

Stream(c) ==
    LET e == Eols[c.eol]
        n == Len(Bodies[c.body]) + c.off
        l == IF Lengths[c.len] = <<>> THEN <<>> ELSE Join(Lengths[c.len], Digits(IF n < 0 THEN 0 ELSE n)) \o e
        o == Cat(Others[c.other], e)
    IN Lines[c.line] \o e \o (IF c.first THEN l \o o ELSE o \o l) \o e \o Bodies[c.body] \o Excess[c.excess]

VARIABLE c
Init == c = Plain
Next == c' \in OneOff(c) /\ Cardinality(Changed(c')) <= MaxOdd

\* the meaning of every prefix, as runs <<from, class>>
Table(s) ==
    LET step(acc, b) == LET q == ScanStep(acc.q, b)
                            m == Meaning(q, s)
                        IN [q |-> q, ms |-> IF acc.ms # <<>> /\ acc.ms[Len(acc.ms)][2] = m.st THEN acc.ms ELSE Append(acc.ms, <<q.n, m.st>>)]
    IN FoldLeft(step, [q |-> R0, ms |-> << <<0, "wait">> >>], s)

Emit == LET s == TLCEval(Stream(c))
            t == TLCEval(Table(s))
            m == Meaning(t.q, s)
        IN PrintT("V " \o ToJson([bytes |-> s, odd |-> Cardinality(Changed(c)), ms |-> t.ms, q |-> IF m.st = "query" THEN m.q ELSE <<-1>>, hs |-> t.q.hs]))

(* Whatever has been decided stays decided, however much follows. *)
RECURSIVE StaysDecided(_, _)
Final == {"query", "bad", "error"}
StaysDecided(ms, i) == i >= Len(ms) \/ (ms[i][2] \notin Final /\ StaysDecided(ms, i + 1))
Decided == StaysDecided(Table(Stream(c)).ms, 1)
Printed == Emit
=============================================================================
