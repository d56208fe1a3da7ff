------------------------------ MODULE Envelope ------------------------------
(* The ADSR envelope generator: OFF -> ATTACK -> DECAY -> SUSTAIN -> RELEASE *)
(* -> OFF, looping ATTACK -> DECAY -> RELEASE. Levels are integers in 0..U.  *)
(* Each curve approaches a goal slightly beyond its target (the overshoot)   *)
(* by a fixed factor c/CS per sample, and ends when it reaches the target.   *)
(*                                                                           *)
(* An envelope state is [st, lev, n, r]: stage, last level, number of        *)
(* samples in the stage and the number it needs (-1: not known, the stage    *)
(* was entered half way). Parameters p: U, CS, o (overshoot), s (sustain),   *)
(* ca, cd, cr (factors), na, nd, nr (samples from 0, from U, from s),        *)
(* ma, md, mr (samples at most), loop, retrigger, tol (rounding), lag        *)
(* (the curve may hold its starting level for a sample).                     *)
EXTENDS Integers, Sequences, SequencesExt
Env(st, lev, r) == [st |-> st, lev |-> lev, n |-> 0, r |-> r]
Silent == Env("OFF", 0, -1)
Curves == {"ATTACK", "DECAY", "RELEASE"}
EMin(a, b) == IF a < b THEN a ELSE b
EMax(a, b) == IF a > b THEN a ELSE b
EAbs(a) == IF a < 0 THEN -a ELSE a

Target(p, st) == CASE st = "ATTACK" -> p.U [] st = "DECAY" -> p.s [] OTHER -> 0
Goal(p, st) == CASE st = "ATTACK" -> p.U + p.o [] st = "DECAY" -> p.s - p.o [] OTHER -> -p.o
Factor(p, st) == CASE st = "ATTACK" -> p.ca [] st = "DECAY" -> p.cd [] OTHER -> p.cr
AtMost(p, st) == CASE st = "ATTACK" -> p.ma [] st = "DECAY" -> p.md [] OTHER -> p.mr
\* next level on the curve, rounded towards the goal
Curve(p, st, y) ==
    LET g == Goal(p, st)
        d == (EAbs(g - y) * Factor(p, st)) \div p.CS
    IN IF y <= g THEN g - d ELSE g + d
Beyond(p, st, y, slack) == IF st = "ATTACK" THEN y >= p.U - slack ELSE y <= Target(p, st) + slack

Needs(p, st, y) == CASE st = "ATTACK" /\ y = 0 -> p.na
                     [] st = "DECAY" /\ y = p.U -> p.nd
                     [] st = "RELEASE" /\ y = p.s -> p.nr
                     [] OTHER -> -1
Enter(p, st, y) == Env(st, y, IF st \in Curves THEN Needs(p, st, y) ELSE -1)
Follower(p, st, on) == CASE st = "ATTACK" -> "DECAY"
                        [] st = "DECAY" -> IF p.loop THEN "RELEASE" ELSE "SUSTAIN"
                        [] st = "RELEASE" -> IF p.loop /\ on THEN "ATTACK" ELSE "OFF"

Gate(p, e, on) ==
    IF on
    THEN IF p.retrigger \/ e.st \in {"OFF", "RELEASE"} THEN Enter(p, "ATTACK", e.lev) ELSE e
    ELSE IF e.st \in {"ATTACK", "DECAY", "SUSTAIN"} THEN Enter(p, "RELEASE", e.lev) ELSE e

(* Which states may follow when the next sample is y. *)
Margin(r) == r \div 50 + 2
InTime(p, e) == /\ e.n + 1 <= AtMost(p, e.st) + Margin(AtMost(p, e.st))
                /\ (e.r >= 0 => e.n + 1 <= e.r + Margin(e.r))
NotEarly(e) == e.r >= 0 => e.n + 1 >= e.r - Margin(e.r)
\* (only a level below a sustain level that was raised meanwhile jumps up to it)
Towards(p, e, y) == IF e.st = "ATTACK" THEN y >= e.lev ELSE y <= e.lev \/ (e.st = "DECAY" /\ e.lev < p.s /\ y = p.s)
After(p, e, y, on) ==
    CASE e.st = "OFF" -> IF y = 0 THEN {e} ELSE {}
      [] e.st = "SUSTAIN" -> IF y = p.s THEN {[e EXCEPT !.lev = y]} ELSE {}
      [] OTHER ->
        LET c == Curve(p, e.st, e.lev)
            held == p.lag /\ e.n = 0 /\ EAbs(y - e.lev) <= 1
            near == held \/ EAbs(y - c) <= p.tol
        IN IF ~Towards(p, e, y) THEN {} ELSE
           (IF near /\ InTime(p, e) THEN {[e EXCEPT !.lev = y, !.n = @ + 1]} ELSE {})
           \cup (IF y = Target(p, e.st) /\ Beyond(p, e.st, c, p.tol) /\ NotEarly(e)
                 THEN {Enter(p, Follower(p, e.st, on), y)} ELSE {})

(* A lagging curve is over one sample before it arrives. *)
RECURSIVE Over(_, _, _, _)
Over(p, e, on, depth) ==
    IF p.lag /\ depth > 0 /\ e.st \in Curves /\ e.n >= 1 /\ Beyond(p, e.st, Curve(p, e.st, e.lev), p.tol) /\ NotEarly(e)
    THEN {e, Enter(p, Follower(p, e.st, on), Target(p, e.st))}
    ELSE {e}
Ready(p, es, on) == UNION {Over(p, e, on, 1) : e \in es}
Afters(p, es, y, on) == UNION {After(p, e, y, on) : e \in Ready(p, es, on)}
Fold(p, es, ys, on) == FoldLeft(LAMBDA x, y : IF x = {} THEN x ELSE Afters(p, x, y, on), es, ys)
Active(e) == e.st # "OFF"
=============================================================================
