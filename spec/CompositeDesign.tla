--------------------------- MODULE CompositeDesign ---------------------------
(***************************************************************************)
(* Composite with a tiny tree: block 1 a composite with the children 2, 3  *)
(* and 4, where 4 is a composite with child 5; 6 is an outer block. Checked *)
(* over all patches: interiors stay within the children, what is unpatched *)
(* is exactly the outer wiring, and an order always exists.                *)
(***************************************************************************)
EXTENDS Composite, TLC
CONSTANT MaxLinks
Parent == <<0, 1, 1, 1, 4, 0>>
DInit == CompositeInit(6, Parent, {1, 4})
EndsOf == {<<b, s, 1>> : b \in Blocks, s \in {"in", "out"}}
Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
DLink == Cardinality(links) < MaxLinks /\ \E s, d \in EndsOf : Link(s, d)
DUnlink == \E x \in links : Unlink(x[1], x[2])
DReorder == \E c \in comp : Reorder(c, {})
DNext == DLink \/ DUnlink \/ DReorder
DSpec == DInit /\ [][DNext]_cvars
InteriorIsInside == \A c \in comp : inner[c].blocks \subseteq Children(c)
AnOrderExists == \A c \in comp : \E o \in Perms(inner[c].blocks) : InnerOk(c, o)
\* temporarily unpatching removes what belongs to the outside and nothing inside
UnpatchedIsInside == \A c \in comp : \A x \in Unpatched(c) :
    Owner(x[1]) = c \/ Owner(x[2]) = c =>
        Side(x[1]) = "in" \/ Side(x[2]) = "out" \/ (Owner(x[1]) = Owner(x[2]))
OnlyOwnLinks == \A b \in Blocks : \A x \in links \ Unpatched(b) : b \in {Owner(x[1]), Owner(x[2])}
NoDepsOnSelf == \A c \in comp : \A e \in Deps(c) : c \notin {e[1], e[2]}
=============================================================================
