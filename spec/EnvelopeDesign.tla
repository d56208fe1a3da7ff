--------------------------- MODULE EnvelopeDesign ---------------------------
(* The sample by sample state machine (stage, level, enabled) of the envelope*)
(* on small scales, for all parameters and gates: the design properties, and *)
(* that Envelope's relation (used to judge the code) admits exactly it.      *)
EXTENDS Envelope, TLC
CONSTANTS Unit, Rates, Overshoots
VARIABLES p, st, lev, on, es, told
dvars == <<p, st, lev, on, es, told>>
Params == [U : {Unit}, CS : {4}, o : Overshoots, s : {0, Unit \div 2, Unit}, ca : Rates, cd : Rates, cr : Rates,
           na : {-1}, nd : {-1}, nr : {-1}, ma : {60}, md : {60}, mr : {60},
           loop : BOOLEAN, retrigger : BOOLEAN, tol : {0}, lag : BOOLEAN]
DInit == p \in Params /\ st = "OFF" /\ lev = 0 /\ on = FALSE /\ es = {Silent} /\ told = FALSE
Arrived(s, y) == Beyond(p, s, y, 0)
Plain(e) == [e EXCEPT !.n = EMin(@, 2)]
Sample ==
    LET y == Curve(p, st, lev) IN
    /\ CASE st = "OFF" -> lev' = 0 /\ st' = st
         [] st = "SUSTAIN" -> lev' = p.s /\ st' = st
         [] OTHER -> IF Arrived(st, y) THEN lev' = Target(p, st) /\ st' = Follower(p, st, on)
                                       ELSE lev' = y /\ st' = st
    /\ es' = {Plain(e) : e \in Afters(p, es, lev', on)}
    /\ told' = TRUE
    /\ UNCHANGED <<p, on>>
DoGate(b) ==
    /\ on' = b
    /\ st' = IF b THEN IF p.retrigger \/ st \in {"OFF", "RELEASE"} THEN "ATTACK" ELSE st
             ELSE IF st \in {"ATTACK", "DECAY", "SUSTAIN"} THEN "RELEASE" ELSE st
    /\ es' = {Gate(p, e, b) : e \in es}
    /\ told' = TRUE
    /\ UNCHANGED <<p, lev>>
DNext == Sample \/ \E b \in BOOLEAN : DoGate(b)
DSpec == DInit /\ [][DNext]_dvars /\ WF_dvars(Sample)
\* properties of the design
Bounded == lev \in 0..p.U
SilentWhenOff == st = "OFF" => lev = 0
Held == st = "SUSTAIN" => lev = p.s
Admitted == \E e \in es : e.st = st /\ e.lev = lev
Edges == {<<"OFF", "ATTACK">>, <<"ATTACK", "DECAY">>, <<"DECAY", "SUSTAIN">>, <<"DECAY", "RELEASE">>,
          <<"RELEASE", "OFF">>, <<"RELEASE", "ATTACK">>, <<"ATTACK", "RELEASE">>, <<"SUSTAIN", "RELEASE">>}
Order == [][st' # st => <<st, st'>> \in Edges \/ (p.retrigger /\ st' = "ATTACK")]_dvars
NoJump == [][lev' # lev => EAbs(lev' - lev) <= ((p.U + p.o) * (p.CS - Factor(p, st))) \div p.CS + 1]_dvars
Loops == [][p.loop => st' # "SUSTAIN"]_dvars
Ends == (<>[]~on) => <>[](st = "OFF" /\ lev = 0)
=============================================================================
