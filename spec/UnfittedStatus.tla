--------------------------- MODULE UnfittedStatus ---------------------------
\* How much of a facet of the background grid belongs to the unfitted domain and
\* to its boundary, and which facets each kind of integral uses.
EXTENDS Integers, Sequences, FiniteSets
CellStatuses == {"cut", "full", "empty"}
\* a facet's status: how much lies inside the domain; whether a part (or all) of it
\* is boundary of the domain seen from its cell (unf) or from the other side (ext)
Statuses == {"cut", "full", "empty", "cut_unf_bdry", "cut_ext_bdry", "cut_unf_bdry_ext_bdry", "full_unf_bdry",
             "full_ext_bdry", "unf_bdry", "ext_bdry", "unf_bdry_ext_bdry"}
Inside(s) == CASE s = "full" -> "all" [] s \in {"cut", "cut_unf_bdry", "cut_ext_bdry", "cut_unf_bdry_ext_bdry"} -> "part" [] OTHER -> "none"
UnfBdry(s) == CASE s = "full_unf_bdry" -> "all"
                [] s \in {"cut_unf_bdry", "cut_unf_bdry_ext_bdry", "unf_bdry", "unf_bdry_ext_bdry"} -> "part" [] OTHER -> "none"
ExtBdry(s) == CASE s = "full_ext_bdry" -> "all"
                [] s \in {"cut_ext_bdry", "cut_unf_bdry_ext_bdry", "ext_bdry", "unf_bdry_ext_bdry"} -> "part" [] OTHER -> "none"
\* what the geometric layer answers
IsFull(s) == Inside(s) = "all"
IsCut(s) == Inside(s) = "part"
IsEmpty(s) == Inside(s) = "none" /\ UnfBdry(s) = "none"
IsFullUnf(s) == UnfBdry(s) = "all"
HasUnf(s) == UnfBdry(s) # "none"
HasExt(s) == ExtBdry(s) # "none"
\* statuses a cell's facets may have: those of a cell without record are its own
StatusIn(cell, rec, f) == IF rec = <<>> THEN cell ELSE rec[f]

\* Selections; bdry: the facet belongs to one cell of the mesh only.
\* Integrals over the domain's boundary (of the mesh or unfitted)
ExtSel(kind, bdry, s) ==
    CASE kind = "cut" -> (bdry /\ IsCut(s)) \/ (HasUnf(s) /\ ~IsFullUnf(s))
      [] kind = "full" -> (bdry /\ IsFull(s)) \/ IsFullUnf(s)
      [] kind = "empty" -> bdry /\ IsEmpty(s)
\* integrals over interior facets
IntSel(kind, bdry, s) ==
    ~bdry /\ CASE kind = "cut" -> IsCut(s)
               [] kind = "full" -> IsFull(s)
               [] kind = "empty" -> Inside(s) = "none"
Sel(ext, kind, bdry, s) == IF ext THEN ExtSel(kind, bdry, s) ELSE IntSel(kind, bdry, s)
InAll(ext, bdry, s) == IF ext THEN bdry \/ HasUnf(s) ELSE ~(bdry \/ HasUnf(s))
=============================================================================
