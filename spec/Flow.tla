-------------------------------- MODULE Flow ----------------------------------
(***************************************************************************)
(* A whole patch at work: values and messages travelling through the       *)
(* network of blocks, cycle by cycle, in the order asked for last.         *)
(* Blocks have two value inputs (0, 1), a message input (2), a value       *)
(* output (0) and a message output (2). A block takes all its messages,    *)
(* remembers the last one and passes those which may travel further on;    *)
(* then it adds up what it remembers and what its inputs read.             *)
(***************************************************************************)
EXTENDS Exec, Integers, TLC
Only(S) == CHOOSE x \in S : TRUE
CONSTANTS M,            \* values count modulo M
          Q             \* capacity of a message queue

VARIABLES own,          \* own[b]: what block b remembers
          inown,        \* inown[b][i]: value set on value input i
          out,          \* out[b]: value of the output
          extra,        \* extra[b]: what the packages around block b add, innermost first
          queue,        \* queue[b]: messages waiting, <<id, ttl>>
          order         \* blocks of a cycle, in order
fvars == <<n, conns, own, inown, out, extra, queue, order>>
world == <<own, inown, out, extra, queue, order>>

FlowInit(k) ==
    /\ ExecInit(k)
    /\ own = [b \in 1..k |-> 0]
    /\ inown = [b \in 1..k |-> <<0, 0>>]
    /\ out = [b \in 1..k |-> 0]
    /\ extra = [b \in 1..k |-> <<0, 0, 0>>]
    /\ queue = [b \in 1..k |-> <<>>]
    /\ order = <<>>

Value == 0
Message == 2
Kind(o, i) == (o = Message) <=> (i = Message)
Patched(a, o, b, i) == Kind(o, i) /\ Connect(a, o, b, i) /\ UNCHANGED world
Unpatched(a, o, b, i) == Disconnect(a, o, b, i) /\ UNCHANGED world

InVal(b, i, outs) ==
    LET s == {c[1] : c \in {d \in conns : d[3] = b /\ d[4] = i}}
    IN IF s = {} THEN inown[b][i + 1] ELSE outs[Only(s)]
Listeners(b) == {c[3] : c \in {d \in conns : d[1] = b /\ d[2] = Message}}
Put(q, ms) == LET r == q \o ms IN IF Len(r) > Q THEN SubSeq(r, Len(r) - Q + 1, Len(r)) ELSE r
Sent(q, b, ms) == [x \in DOMAIN q |-> IF x \in Listeners(b) THEN Put(q[x], ms) ELSE q[x]]

SetOwn(b, v) == own' = [own EXCEPT ![b] = v] /\ UNCHANGED <<n, conns, inown, out, extra, queue, order>>
\* the interior of a package changes, and is put in order again
Rebuild(b, level, v) == extra' = [extra EXCEPT ![b][level] = v] /\ UNCHANGED <<n, conns, own, inown, out, queue, order>>
SetInput(b, i, v) == inown' = [inown EXCEPT ![b][i + 1] = v] /\ UNCHANGED <<n, conns, own, out, extra, queue, order>>
SendFrom(b, m) == queue' = Sent(queue, b, <<m>>) /\ UNCHANGED <<n, conns, own, inown, out, extra, order>>
PushTo(b, m) == queue' = [queue EXCEPT ![b] = Put(@, <<m>>)] /\ UNCHANGED <<n, conns, own, inown, out, extra, order>>
Ordered(starts, o) == Order(starts, o) /\ order' = o /\ UNCHANGED <<own, inown, out, extra, queue>>

\* one block works; w = [own, out, queue, got]
Passed(ms) == LET on == SelectSeq(ms, LAMBDA m : m[2] > 0) IN [k \in DOMAIN on |-> <<on[k][1], on[k][2] - 1>>]
Result(b, o, outs) == (o + InVal(b, 0, outs) + (2 * InVal(b, 1, outs)) + b + extra[b][1] + extra[b][2] + extra[b][3]) % M
Worked(w, b) ==
    LET ms == w.queue[b]
        mem == IF ms = <<>> THEN w.own[b] ELSE ms[Len(ms)][1]
    IN [own |-> [w.own EXCEPT ![b] = mem],
        out |-> [w.out EXCEPT ![b] = Result(b, mem, w.out)],
        queue |-> Sent([w.queue EXCEPT ![b] = <<>>], b, Passed(ms)),
        got |-> [w.got EXCEPT ![b] = @ \o ms]]
RECURSIVE Work(_, _)
Work(w, bs) == IF bs = <<>> THEN w ELSE Only({Work(x, Tail(bs)) : x \in {TLCEval(Worked(w, Head(bs)))}})
After == Work([own |-> own, out |-> out, queue |-> queue, got |-> [b \in Blocks |-> <<>>]], order)
Cycle(outs, got) ==
    \E w \in {After} :
      /\ outs = w.out /\ got = w.got
      /\ own' = w.own /\ out' = w.out /\ queue' = w.queue
      /\ UNCHANGED <<n, conns, inown, extra, order>>

(* Main loop without audio: it sleeps until the next cycle is due, and that *)
(* is the time of the cycle. Eight units of time are one cycle.             *)
Due(now) == ((now + 7) \div 8) * 8
=============================================================================
