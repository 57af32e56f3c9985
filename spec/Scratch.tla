------------------------------- MODULE Scratch -------------------------------
(* Scratch memory of the shim: every thread owns, per real type, one block;
   a request returns a block of at least n words or nothing.  Addresses are
   abstract (ranks of the recorded block ends).                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Types
Owners == Threads \X Types
NoBlock == [lo |-> 0, hi |-> 0]
VARIABLES block   \* per owner: what it was last handed
Disjoint(a, b) == a.hi <= b.lo \/ b.hi <= a.lo
Separate == \A o, p \in Owners : o # p /\ block[o] # NoBlock /\ block[p] # NoBlock => Disjoint(block[o], block[p])
Init == block = [o \in Owners |-> NoBlock]
Get(o, lo, hi) == /\ lo < hi
                  /\ block' = [block EXCEPT ![o] = [lo |-> lo, hi |-> hi]]
Refuse(o) == UNCHANGED block
\* small closed model: a bump allocator satisfies the interface
CONSTANT Top
Next == \E o \in Owners : \/ \E lo \in 1..Top, n \in 1..2 :
                               /\ lo + n <= Top
                               /\ \A p \in Owners \ {o} : block[p] = NoBlock \/ Disjoint([lo |-> lo, hi |-> lo + n], block[p])
                               /\ Get(o, lo, lo + n)
                          \/ Refuse(o)
Spec == Init /\ [][Next]_block
=============================================================================
