---------------------------- MODULE FormCompile ----------------------------
(* From the integrals of a form to the domains they are computed over.     *)
(* An integral is [t, id, tag]: type, subdomain id (Every: no id given),   *)
(* and what is integrated.  The marks of a type are pairs [id, ents] given *)
(* by mesh tags or as a list.  DOLFINx looks the entities of a compiled    *)
(* integral up, by its id, in the sorted list of domains of its type.      *)
EXTENDS Integers, Sequences, FiniteSets
Every == -1
Ext == "exterior_facet"
Rng(s) == {s[k] : k \in DOMAIN s}
Over(r) == r.t = Ext /\ r.id = Every           \* over all the facets, the unfitted boundary's included
(* ------------------------------------------------- what DOLFINx does *)
Sorted(s) == \A a, b \in DOMAIN s : a < b => (s[a].id < s[b].id \/ (s[a].id = s[b].id /\ s[a].ents = s[b].ents))
Found(s, id) == LET K == {k \in DOMAIN s : s[k].id = id} IN IF K = {} THEN <<>> ELSE s[CHOOSE k \in K : \A l \in K : k <= l].ents
(* ------------------------------------------------- what the form says *)
Wanted(marks, all, r) == IF Over(r) THEN all ELSE Found(marks[r.t], r.id)
(* ------------------------------------------------- the compiled form *)
ById(s, tag) == s[CHOOSE k \in DOMAIN s : s[k].tag = tag]
Faithful(raw, jit) ==
    /\ Len(jit) = Len(raw) /\ {x.tag : x \in Rng(jit)} = {x.tag : x \in Rng(raw)}
    /\ \A r \in Rng(raw) : LET j == ById(jit, r.tag) IN
         /\ j.t = r.t /\ (~Over(r) => j.id = r.id)
         \* one of its own: neither shared with, nor mistaken for, that of marked entities
         /\ Over(r) => j.id >= 0 /\ \A x \in Rng(raw) : x.t = Ext /\ ~Over(x) => x.id # j.id
Domains(marks, all, raw, jit, sub) ==
    \A r \in Rng(raw) : (r.id # Every \/ Over(r)) =>
        LET j == ById(jit, r.tag) IN Sorted(sub[r.t]) /\ Found(sub[r.t], j.id) = Wanted(marks, all, r)
(* a compiler: ids for the integrals over everything come after all others *)
Top(marks, raw) == LET I == {Every} \cup {x.id : x \in {y \in Rng(raw) : y.t = Ext}} \cup {m.id : m \in Rng(marks[Ext])}
                   IN CHOOSE m \in I : \A n \in I : n <= m
Renumber(marks, raw) == [k \in DOMAIN raw |-> IF Over(raw[k]) THEN [raw[k] EXCEPT !.id =
                            Top(marks, raw) + Cardinality({l \in 1 .. k : Over(raw[l])})] ELSE raw[k]]
OverIds(raw, jit) == SelectSeq([k \in DOMAIN raw |-> IF Over(raw[k]) THEN jit[k].id ELSE Every], LAMBDA n : n # Every)
SubOf(marks, all, raw) == LET o == OverIds(raw, Renumber(marks, raw)) IN
    [marks EXCEPT ![Ext] = @ \o [k \in DOMAIN o |-> [id |-> o[k], ents |-> all]]]
=============================================================================
