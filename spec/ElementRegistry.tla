-------------------------- MODULE ElementRegistry --------------------------
(* The shim's element registry seen through its C interface: one registry per
   real type, elements created once, handles dense and stable until reset.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Types, Keys, GoodKeys, MaxOps
VARIABLES reg,   \* [Types -> Seq(Keys)]
          ops
rvars == <<reg, ops>>
Init == reg = [t \in Types |-> <<>>] /\ ops = 0
Find(s, k) == IF \E i \in 1..Len(s) : s[i] = k
              THEN (CHOOSE i \in 1..Len(s) : s[i] = k) - 1 ELSE -1
\* answer of a registration: the handle, or a negative number
RegisterAnswer(t, k) == IF k \notin GoodKeys THEN -1
                        ELSE IF Find(reg[t], k) >= 0 THEN Find(reg[t], k) ELSE Len(reg[t])
Register(t, k) == /\ reg' = IF k \in GoodKeys /\ Find(reg[t], k) < 0
                            THEN [reg EXCEPT ![t] = Append(@, k)] ELSE reg
                  /\ ops' = ops + 1
InRange(t, h) == h >= 0 /\ h < Len(reg[t])
\* what a tabulation through handle h tabulates
Denotes(t, h) == reg[t][h + 1]
Look == reg' = reg /\ ops' = ops + 1
Reset == reg' = [t \in Types |-> <<>>] /\ ops' = ops + 1
Next == /\ ops < MaxOps
        /\ \/ \E t \in Types, k \in Keys : Register(t, k)
           \/ Reset
Spec == Init /\ [][Next]_rvars
NoDuplicates == \A t \in Types : \A i, j \in 1..Len(reg[t]) : reg[t][i] = reg[t][j] => i = j
OnlyGood == \A t \in Types : \A i \in 1..Len(reg[t]) : reg[t][i] \in GoodKeys
AnswerDenotes == \A t \in Types : \A k \in GoodKeys :
    LET h == RegisterAnswer(t, k) IN h < Len(reg[t]) => Denotes(t, h) = k
Stable == [][\A t \in Types : \/ reg'[t] = <<>>
                              \/ Len(reg'[t]) >= Len(reg[t]) /\ SubSeq(reg'[t], 1, Len(reg[t])) = reg[t]]_rvars
Separate == [][\E t \in Types : reg'[t] = reg[t] \/ reg' = [u \in Types |-> <<>>]]_rvars
=============================================================================
