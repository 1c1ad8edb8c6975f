------------------------------ MODULE MC_Flags ------------------------------
EXTENDS Flags, Json
CONSTANTS MAXBITS
VARIABLES B, pc
vars == <<B, pc>>
Init == B = {} /\ pc = "grow"
Next == \/ /\ pc = "grow" /\ Cardinality(B) < MAXBITS
           /\ \E b \in 0..30 : (\A x \in B : x < b) /\ B' = B \cup {b}
           /\ UNCHANGED pc
        \/ /\ pc = "grow" /\ pc' = "end" /\ UNCHANGED B
           /\ PrintT("SCN " \o ToJson([kind |-> "value", bits |-> B]))
Spec == Init /\ [][Next]_vars
RoundTrip == Decode(Encode(B)) = B
Fits == Encode(B) >= 0
Meet == \A b \in 0..30 : (AndBits(Encode(B), Encode({b})) # 0) <=> b \in B
Join == \A b \in 0..30 : OrBits(Encode(B), Encode({b})) = Encode(B \cup {b})
=============================================================================
