------------------------------- MODULE PieceGen -------------------------------
(* Every way of wiring up to three channels to synthesizers.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxChannels
VARIABLES route, kinds, split, mix
gvars == <<route, kinds, split, mix>>
Kinds == {"poly", "highest", "lowest"}
GInit == route = <<>> /\ kinds = <<>> /\ split \in BOOLEAN /\ mix \in BOOLEAN
Add == /\ Len(route) < MaxChannels /\ UNCHANGED <<split, mix>>
       /\ \/ \E kind \in Kinds : kinds' = Append(kinds, kind) /\ route' = Append(route, Len(kinds) + 1)
          \/ \E s \in DOMAIN kinds : route' = Append(route, s) /\ UNCHANGED kinds
GSpec == GInit /\ [][Add]_gvars
Emit == PrintT("SCN " \o ToJson([route |-> route', kinds |-> kinds', split |-> split, mix |-> mix]))
=============================================================================
