-------------------------------- MODULE Delay --------------------------------
(* A delay line of L samples with feedback num / den. Samples are integers    *)
(* large enough to be divided exactly. Signals come in buffers of N samples;  *)
(* the line keeps all buffers which were fed, silent ones as <<>>.            *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANT N
Empty == <<>>
At(buf, k) == IF buf = <<>> THEN 0 ELSE buf[k]
\* what was fed at sample p, counting from 1
Fed(line, p) == IF p < 1 THEN 0 ELSE At(line[((p - 1) \div N) + 1], ((p - 1) % N) + 1)
Back(fb, w) == (w * fb[1]) \div fb[2]
Silent(xs) == \A k \in DOMAIN xs : xs[k] = 0
Packed(xs) == IF Silent(xs) THEN <<>> ELSE xs
\* the next buffer: what comes out of the line, and the line with the new buffer
\* (values are bound by set constructors, which TLC evaluates once)
Out(line, L, n) == [k \in 1..N |-> IF k <= L THEN Fed(line, n + k - L) ELSE 0]
In(L, fb, xs, old) ==
    IF L >= N THEN [k \in 1..N |-> At(xs, k) + Back(fb, old[k])]
    ELSE FoldLeft(LAMBDA acc, k : Append(acc, At(xs, k) + Back(fb, IF k <= L THEN old[k] ELSE acc[k - L])), <<>>, [k \in 1..N |-> k])
Only(S) == CHOOSE x \in S : TRUE
Buffer(line, L, fb, xs) ==
    Only({ Only({ [wet |-> TLCEval([k \in 1..N |-> IF k <= L THEN old[k] ELSE fed[k - L]]), line |-> Append(line, Packed(fed))]
                  : fed \in {TLCEval(In(L, fb, xs, old))} })
           : old \in {TLCEval(Out(line, L, N * Len(line)))} })
\* m quarters of wet
Blended(x, w, m) == (4 - m) * x + m * w
\* several channels go into one line as their mean
Mean(channels) == [k \in 1..N |-> FoldLeft(LAMBDA a, c : a + At(c, k), 0, channels) \div Len(channels)]
\* channels to outputs; outputs without a channel keep what they had
Split(channels, outs) == [i \in DOMAIN outs |-> IF Len(channels) = 1 THEN channels[1] ELSE IF i <= Len(channels) THEN channels[i] ELSE outs[i]]
=============================================================================
