------------------------------ MODULE LangStore ------------------------------
(* From commands as the language spells them (Lang) to commands of the store *)
(* (Store), both with contents as code points.                               *)
EXTENDS Store, Lang, TLC, SequencesExt

EmptyContent == <<>>
FixV(x) == IF x.t = "map" THEN [x EXCEPT !.m = {<<p[1], p[2]>> : p \in ToSet(@)}] ELSE x
FixR(r) == IF r[1] = "val" THEN <<"val", FixV(r[2])>> ELSE r
FixC(c) == IF "val" \in DOMAIN c THEN [c EXCEPT !.val = FixV(@)] ELSE c

RefusalKinds == {"TokenizationError", "ParseError", "TypeError"}

(* lifetimes: seconds as digits to ticks (far ones anchored, see StoreTrace) *)
HugeSeconds == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
Anchors == << <<49,54,55,55,55,50,49,54>>,   \* 2^24
              <<50,49,52,55,52,56,51,54,52,56>>,   \* 2^31
              <<52,50,57,52,57,54,55,50,57,54>>,   \* 2^32
              <<49,48,48,48,48,48,48,48,48,48,48>>,   \* 10^10
              <<49,48,57,57,53,49,49,54,50,55,55,55,54>>,   \* 2^40
              <<49,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48>>,   \* 10^15
              <<57,48,48,55,49,57,57,50,53,52,55,52,48,57,57,50>>,   \* 2^53
              <<49,49,53,50,57,50,49,53,48,52,54,48,54,56,52,54,57,55,54>>,   \* 2^60
              <<52,54,49,49,54,56,54,48,49,56,52,50,55,51,56,55,57,48,52>>,   \* 2^62
              <<57,50,50,51,51,55,50,48,51,53,49,48,48,48,48,48,48,48,48>> >>   \* close below the largest representable deadline
LifeTicks(d) ==
    IF d = NoLifetime THEN NoLife
    ELSE IF d = HugeSeconds THEN HugeLife
    ELSE IF Len(d) <= 5 THEN Nat9(d) * T
    ELSE IF \E j \in DOMAIN Anchors : Anchors[j] = d THEN (CHOOSE j \in DOMAIN Anchors : Anchors[j] = d) * 200000000
    ELSE -9
Position(d) == IF Len(d) <= 9 THEN Nat9(d) ELSE -1

StoreCmd(c) ==
    LET c1 == IF "life" \in DOMAIN c THEN [c EXCEPT !.life = LifeTicks(@)] ELSE c
    IN IF "i" \in DOMAIN c1 THEN [c1 EXCEPT !.i = Position(@)] ELSE c1
Expressible(c) == "life" \in DOMAIN c => c.life # -9

=============================================================================
