----------------------------- MODULE VersionGate -----------------------------
\* Which FEniCSx installations QUGaR accepts.  A version is <<major, minor, micro>>;
\* suffixes of post-releases do not matter.
EXTENDS Integers, Sequences
Less(a, b) == IF a[1] # b[1] THEN a[1] < b[1] ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[3] < b[3]
Within(v, lo, hi) == ~Less(v, lo) /\ Less(v, hi)
\* the pins of pyproject.toml
Pins == [dolfinx |-> <<<<0, 10, 0>>, <<0, 11, 0>>>>, basix |-> <<<<0, 10, 0>>, <<0, 11, 0>>>>,
         ffcx |-> <<<<0, 10, 0>>, <<0, 11, 0>>>>, ufl |-> <<<<2025, 2, 0>>, <<2025, 3, 0>>>>]
\* an absent package is <<>>
Ok(pkg, v) == v # <<>> /\ Within(v, Pins[pkg][1], Pins[pkg][2])
Accepted(world) == \A p \in DOMAIN Pins : Ok(p, world[p])
\* assemble_scalar of DOLFINx 0.10.* drops the given coefficients: it is replaced
NeedsPatch(v) == v[1] = 0 /\ v[2] = 10
=============================================================================
