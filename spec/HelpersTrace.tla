----------------------------- MODULE HelpersTrace -----------------------------
EXTENDS Helpers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
\* start of the progress bar (time of its first bar); the next index
VARIABLES start, t, l
tvars == <<start, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ start = 0
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Pure(o) == IsEvent(o) /\ UNCHANGED start
Refused(e) == e.res = "refused"
\* a note, its copies and conversions
TNote == /\ Pure("note")
         /\ \E e \in {Ev[l]} :
            IF ~ValidNote([p |-> e.p, v |-> e.v, f |-> IF e.default THEN 0 ELSE e.f]) THEN Refused(e)
            ELSE /\ e.res = "ok"
                 /\ \A c \in Range(e.copies) : c.p = e.p /\ c.v = e.v /\ (~e.default => c.f = e.f) /\ c = e.copies[1]
                 /\ e.silenced = Silenced(e.copies[1])
                 /\ e.on = (e.v > 0) /\ e.off = (e.v = 0)
                 /\ e.default => e.copies[1].f > 0 /\ (e.p = 69 => e.copies[1].f = 440000)
TOrder == /\ Pure("order")
          /\ \E e \in {Ev[l]} : /\ e.before = Before(e.a, e.b) /\ e.same = (e.a = e.b)
                                /\ \A i \in 1..(Len(e.sorted) - 1) : ~Before(e.sorted[i + 1], e.sorted[i])
                                /\ Len(e.sorted) = Len(e.notes) /\ \A n \in Range(e.notes) : Cardinality({i \in DOMAIN e.notes : e.notes[i] = n}) = Cardinality({i \in DOMAIN e.sorted : e.sorted[i] = n})
TPrime == Pure("prime") /\ \E e \in {Ev[l]} : \A i \in DOMAIN e.numbers : e.prime[i] = IsPrime(e.numbers[i])
TNextPrime == Pure("next") /\ \E e \in {Ev[l]} : e.found = NextPrime(Max({e.start, 2}))
TNextPrimes == Pure("nexts") /\ \E e \in {Ev[l]} : e.found = NextPrimes(e.n, Max({e.start, 2}))
TSieve == Pure("sieve") /\ \E e \in {Ev[l]} : e.found = SelectSeq([i \in 1..Max({0, e.limit}) |-> i], IsPrime)
TSearch == /\ Pure("search")
           /\ \E e \in {Ev[l]} : IF AtLeast(e.array, e.x) = {} THEN Refused(e) ELSE e.res = "ok" /\ e.found = Min(AtLeast(e.array, e.x))
\* either end of the turn may stand for both
TWrap == /\ Pure("wrap")
         /\ \E e \in {Ev[l]} : /\ Len(e.out) = Len(e.x)
              /\ \A i \in DOMAIN e.x : e.out[i] = Wrap(e.x[i], e.u) \/ (Wrap(e.x[i], e.u) = -(e.u \div 2) /\ e.out[i] = e.u \div 2)
TClip == Pure("clip") /\ \E e \in {Ev[l]} : e.out = Clip(e.x, e.lower, e.upper)
TNumber == /\ Pure("number")
           /\ \E e \in {Ev[l]} :
              /\ e.power = PowerOfTwo(e.a) /\ (e.b > 0 => e.dyadic = Dyadic(e.a, e.b)) /\ (e.b # 0 => e.divisible = (e.a % Abs(e.b) = 0))
              /\ (e.a # 0 /\ e.b # 0) => e.lcm = Lcm(e.a, e.b)
              /\ e.sign = (IF e.a < 0 THEN -1 ELSE 1)
TBlend == Pure("blend") /\ \E e \in {Ev[l]} : e.out = [i \in DOMAIN e.a |-> Blend(e.a[i], e.b[i], e.x)]
\* the loudest becomes one, all in proportion (outputs in units of the loudest); silence is refused
TNormalize == /\ Pure("normalize")
              /\ \E e \in {Ev[l]} : /\ e.after = e.x
                    /\ IF \A i \in DOMAIN e.x : e.x[i] = 0 THEN Refused(e)
                       ELSE \E m \in {Max({Abs(e.x[i]) : i \in DOMAIN e.x})} :
                            e.res = "ok" /\ e.out = [i \in DOMAIN e.x |-> Sign(e.x[i]) * ((((2 * Abs(e.x[i]) * 10000) + m) \div (2 * m)))]
\* y = a x + b through both corners and the middle (in 1 / 1000)
TMap == /\ Pure("map")
        /\ \E e \in {Ev[l]} : /\ Abs(e.first - (1000 * e.y[1])) <= 1 /\ Abs(e.last - (1000 * e.y[2])) <= 1
                              /\ Abs((2 * e.middle) - (1000 * (e.y[1] + e.y[2]))) <= 2
\* arrays which all share can not be written, and stay what they are
TSilence == /\ Pure("silence")
            /\ \E e \in {Ev[l]} : e.shape = e.asked /\ e.nonzero = 0 /\ e.written = FALSE /\ e.exact
TTime == /\ Pure("time")
         /\ \E e \in {Ev[l]} : Len(e.out) = e.n /\ e.written = FALSE /\ \A i \in DOMAIN e.out : e.out[i] = (i - 1) * e.step
\* progress of a run; times in 1 / 1024 sec., shown in 1 / 1000
TBar == /\ IsEvent("bar")
        /\ \E e \in {Ev[l]} : \E m \in {Max({1, e.n - 1})} : \E i \in {Clip(e.i, 0, m)} :
             /\ start' = IF i = 0 THEN e.now ELSE start
             /\ e.stars \in {Stars(e.i, e.n, e.w)} \cup (IF (e.w * i) % m = 0 /\ i > 0 /\ i < m THEN {Stars(e.i, e.n, e.w) - 1} ELSE {})
             /\ e.stars + e.blanks = e.w
             /\ e.prefix /\ e.erased /\ e.ended = (e.i >= e.n - 1)
             /\ IF i = 0 THEN e.left = -1
                ELSE \E d \in {(e.now - start) * (m - i)} : Abs((e.left * i) - ((d * 125) \div 128)) <= i + 1
TRange == Pure("range") /\ \E e \in {Ev[l]} : e.out = [i \in 1..e.n |-> i - 1] /\ e.lines = e.n /\ e.ended = (e.n > 0)
TDone == Done /\ UNCHANGED tvars
TraceNext == TNote \/ TOrder \/ TPrime \/ TNextPrime \/ TNextPrimes \/ TSieve \/ TSearch \/ TWrap \/ TClip \/ TNumber \/ TBlend \/ TNormalize \/ TMap \/ TSilence \/ TTime \/ TBar \/ TRange \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
