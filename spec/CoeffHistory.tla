---------------------------- MODULE CoeffHistory ----------------------------
(* Histories of coefficients.  The functions of the forms change (`now`    *)
(* counts the changes); packed arrays are made by the user (held) and by   *)
(* the problems, that pack the first time and then bring up to date.  The  *)
(* matrix A and the vector b of the problems hold what was added to them   *)
(* since they were last emptied, as [form, ver].                           *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NForms, MaxOps, MaxHeld, MaxNow
FormIds == 1 .. NForms            \* 1: bilinear form of the problems, 2: their linear form
VARIABLES now, held, A, b, busy, ops, nbc       \* nbc: how many boundary conditions there are
hvars == <<now, held, A, b, busy, ops, nbc>>
Void == [sum |-> <<>>, final |-> FALSE, bc |-> {}]
Init == now = 0 /\ held = <<>> /\ A = Void /\ b = Void /\ busy = "no" /\ ops = 0 /\ nbc \in 0 .. 2
Idle == busy = "no" /\ ops < MaxOps
Tick == ops' = ops + 1
Change == Idle /\ now < MaxNow /\ now' = now + 1 /\ Tick /\ UNCHANGED <<held, A, b, busy, nbc>>
Pack(f) == Idle /\ Len(held) < MaxHeld /\ held' = Append(held, [form |-> f, ver |-> now]) /\ Tick /\ UNCHANGED <<now, A, b, busy, nbc>>
(* the array that comes back replaces the one given *)
Update(k) == Idle /\ held' = [held EXCEPT ![k].ver = now] /\ Tick /\ UNCHANGED <<now, A, b, busy, nbc>>
Start(what) == Idle /\ busy' = what /\ Tick /\ UNCHANGED <<now, held, A, b, nbc>>
(* ------------------------------------------ what goes on inside of solve / F / J *)
In(S) == busy \in S
ZeroA == In({"solve", "J"}) /\ A' = Void /\ UNCHANGED <<now, held, b, busy, ops, nbc>>
AddA == In({"solve", "J"}) /\ ~A.final /\ A' = [A EXCEPT !.sum = Append(@, [form |-> 1, ver |-> now])] /\ UNCHANGED <<now, held, b, busy, ops, nbc>>
FinalA == In({"solve", "J"}) /\ A' = [A EXCEPT !.final = TRUE] /\ UNCHANGED <<now, held, b, busy, ops, nbc>>
ZeroB == In({"solve", "F"}) /\ b' = Void /\ UNCHANGED <<now, held, A, busy, ops, nbc>>
AddB == In({"solve", "F"}) /\ ~b.final /\ b' = [b EXCEPT !.sum = Append(@, [form |-> 2, ver |-> now])] /\ UNCHANGED <<now, held, A, busy, ops, nbc>>
Lift == In({"solve", "F"}) /\ ~b.final /\ b' = [b EXCEPT !.sum = Append(@, [form |-> 1, ver |-> now])] /\ UNCHANGED <<now, held, A, busy, ops, nbc>>
(* contributions of the other processes are added before the boundary values are set *)
FinalB == In({"solve", "F"}) /\ ~b.final /\ b.bc = {} /\ b' = [b EXCEPT !.final = TRUE] /\ UNCHANGED <<now, held, A, busy, ops, nbc>>
BcB(k) == In({"solve", "F"}) /\ b.final /\ b' = [b EXCEPT !.bc = @ \cup {k}] /\ UNCHANGED <<now, held, A, busy, ops, nbc>>
Is(X, S) == X.final /\ Len(X.sum) = Cardinality(S) /\ {X.sum[j] : j \in 1 .. Len(X.sum)} = S
MatrixReady == Is(A, {[form |-> 1, ver |-> now]})
VectorReady == Is(b, {[form |-> 1, ver |-> now], [form |-> 2, ver |-> now]}) /\ b.bc = 1 .. nbc
Solver == busy = "solve" /\ MatrixReady /\ VectorReady /\ busy' = "solved" /\ UNCHANGED <<now, held, A, b, ops, nbc>>
Scatter == busy = "solved" /\ busy' = "done" /\ UNCHANGED <<now, held, A, b, ops, nbc>>
Finish == /\ \/ busy = "done"
             \/ busy = "F" /\ VectorReady
             \/ busy = "J" /\ MatrixReady
          /\ busy' = "no" /\ UNCHANGED <<now, held, A, b, ops, nbc>>
Next == \/ Change \/ \E f \in FormIds : Pack(f)
        \/ \E k \in 1 .. Len(held) : Update(k)
        \/ \E w \in {"solve", "F", "J"} : Start(w)
        \/ ZeroA \/ (Len(A.sum) < 2 /\ AddA) \/ FinalA \/ ZeroB \/ (Len(b.sum) < 3 /\ (AddB \/ Lift)) \/ FinalB \/ (\E k \in 1 .. nbc : BcB(k)) \/ Solver \/ Scatter \/ Finish
Spec == Init /\ [][Next]_hvars
(* nothing is ever older than the coefficients when a problem hands over its matrix or its vector *)
Current == /\ busy \in {"solved", "done"} => MatrixReady /\ VectorReady
           /\ \A k \in 1 .. Len(held) : held[k].ver <= now
(* arrays the user keeps change only when he says so *)
Kept == [][\A k \in 1 .. Len(held) : held'[k] = held[k] \/ held'[k] = [held[k] EXCEPT !.ver = now]]_hvars
=============================================================================
