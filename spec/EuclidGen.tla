------------------------------ MODULE EuclidGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxSlots
VARIABLES n, p
GInit == n = 0 /\ p = 0
GNext == n = 0 /\ n' \in 1..MaxSlots /\ p' \in 1..n'
GSpec == GInit /\ [][GNext]_<<n, p>>
Emit == PrintT("SCN " \o ToJson([n |-> n', p |-> p']))
=============================================================================
