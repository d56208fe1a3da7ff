------------------------------- MODULE TempoGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxNum, Dens
VARIABLES m
GInit == m = <<0, 0>>
GNext == m = <<0, 0>> /\ m' \in (1..MaxNum) \X Dens
GSpec == GInit /\ [][GNext]_m
Emit == PrintT("SCN " \o ToJson(m'))
=============================================================================
