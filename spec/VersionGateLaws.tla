--------------------------- MODULE VersionGateLaws ---------------------------
EXTENDS VersionGate
CONSTANT K
V == (0..K) \X (0..K) \X (0..K)
VARIABLES a, b, d
Init == a \in V /\ b \in V /\ d \in V
Next == UNCHANGED <<a, b, d>>
Spec == Init /\ [][Next]_<<a, b, d>>
Trichotomy == (IF Less(a, b) THEN 1 ELSE 0) + (IF Less(b, a) THEN 1 ELSE 0) + (IF a = b THEN 1 ELSE 0) = 1
Transitive == Less(a, b) /\ Less(b, d) => Less(a, d)
RangeIsInterval == Within(a, b, d) => Less(b, d)
=============================================================================
