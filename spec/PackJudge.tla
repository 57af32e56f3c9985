----------------------------- MODULE PackJudge -----------------------------
(* Packed coefficients (PackLayout) judged against what the unfitted       *)
(* domain answered.  rec also has: std[e] the standard reals; ents[e]:     *)
(* mode, lf (local facets), pm (permutation numbers), q[k] = what the      *)
(* domain's quadrature of entity e is for rec.quads[k]: p, w, n; reqs:     *)
(* what was asked of the domain, want: what had to be; quads[k]: unf.      *)
EXTENDS PackLayout, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
FC(rec) == FCell[rec.cell]
Frame(rec, e, p) == Unpermute(FC(rec), rec.ents[e].pm[1], p)
Expect0(rec, e, p) == IF rec.type = "cell" THEN p ELSE OnFacet(rec.cell, rec.ents[e].lf[1], p)
Expect1(rec, e, p) == OnFacet(rec.cell, rec.ents[e].lf[2], Permute(FC(rec), rec.ents[e].pm[2], Frame(rec, e, p)))
Same(a, n, G(_)) == Len(a) = n /\ \A k \in 1 .. n : a[k] = G(k)
QuadOK(rec, e, k) ==
  LET q == rec.ents[e].q[k] n == Len(q.w)
      EP0(j) == Expect0(rec, e, q.p[j])
      EP1(j) == Expect1(rec, e, q.p[j])
      EPF(j) == Frame(rec, e, q.p[j])
      EW(j) == <<q.w[j]>>
      EN(j) == q.n[j]
  IN /\ NPts(rec, e, k) = n
     /\ Same(Points(rec, e, k), n, EP0)
     /\ rec.type = "interior_facet" => Same(Points1(rec, e, k), n, EP1)
     /\ rec.mixed => Same(FacetPoints(rec, e, k), n, EPF)
     /\ Same(PWeights(rec, e, k), n, EW)
     /\ rec.quads[k].unf => Same(Normals(rec, e, k), n, EN)
Cut(rec) == {e \in 1 .. Len(rec.ents) : rec.ents[e].mode = "cut"}
Standard(rec) == \A e \in 1 .. Len(rec.ents) : \A j \in 1 .. NStd(rec) : rec.V[Base(rec, e) + j] = rec.std[e][j]
Modes(rec) == \A e \in 1 .. Len(rec.ents) : ModeOf(rec, e) = rec.ents[e].mode
Room(rec) == \A e \in Cut(rec) : Start(rec, e) >= Rows(rec) /\ EndOf(rec, e) <= Len(rec.V)
Apart(rec) == \A a, b \in Cut(rec) : a # b => EndOf(rec, a) <= Start(rec, b) \/ EndOf(rec, b) <= Start(rec, a)
Data(rec) == \A e \in Cut(rec) : \A k \in 1 .. Len(rec.quads) : QuadOK(rec, e, k)
(* the domain is asked for the cut entities only, with the degree of the quadrature; rec.want and rec.reqs: of all the *)
(* integrals of the form *)
Asked(S, kind, deg) == UNION {{S[r].ids[j] : j \in 1 .. Len(S[r].ids)} : r \in {x \in 1 .. Len(S) : S[x].kind = kind /\ S[x].deg = deg}}
Requests(rec) ==
  \A S \in {rec.reqs, rec.want} : \A r \in 1 .. Len(S) :
     Asked(rec.reqs, S[r].kind, S[r].deg) = Asked(rec.want, S[r].kind, S[r].deg)
OK(rec) == Standard(rec) /\ Modes(rec) /\ Room(rec) /\ Data(rec) /\ Apart(rec) /\ Requests(rec)
VARIABLE i
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~OK(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
