------------------------------ MODULE Composite ------------------------------
(***************************************************************************)
(* Composite blocks (klang/composite.py) and the start of a network with   *)
(* composites (klang/klang.py). Blocks 1..n form a tree: parent[b] is the  *)
(* composite b lives in (0: top level). Connections join ends              *)
(*   <<b, "in", k>>   input k of block b (a relay when b is a composite)   *)
(*   <<b, "out", k>>  output k of block b (a relay when b is a composite)  *)
(* A connection whose source is <<c, "in", k>>, or whose destination is    *)
(* <<c, "out", k>>, lies inside of the composite c.                        *)
(***************************************************************************)
EXTENDS Exec

VARIABLES parent,           \* parent[b]
          comp,             \* the composites
          links,            \* connections <<source end, destination end>>
          inner,            \* inner[c]: [blocks, deps] when c was last ordered
          known             \* known[c]: order of c seen since then, <<>> if none
cvars == <<n, conns, parent, comp, links, inner, known>>

Owner(e) == e[1]
Side(e) == e[2]

Children(c) == {b \in Blocks : parent[b] = c}

(* Proper nesting: siblings, or from / to a relay of the parent. *)
Allowed(s, d) ==
    \/ Side(s) = "out" /\ Side(d) = "in" /\ parent[Owner(s)] = parent[Owner(d)]
    \/ Side(s) = "in"  /\ Side(d) = "in" /\ Owner(s) = parent[Owner(d)]
    \/ Side(s) = "out" /\ Side(d) = "out" /\ Owner(d) = parent[Owner(s)]
    \/ Side(s) = "in"  /\ Side(d) = "out" /\ Owner(s) = Owner(d)
Taken(d) == \E x \in links : x[2] = d

CompositeInit(k, par, cs) ==
    /\ ExecInit(k)
    /\ parent = par /\ comp = cs /\ links = {}
    /\ inner = [c \in cs |-> [blocks |-> {}, deps |-> {}]]
    /\ known = [c \in cs |-> <<>>]

Link(s, d) ==
    /\ Allowed(s, d) /\ ~Taken(d)
    /\ links' = links \cup {<<s, d>>}
    /\ UNCHANGED <<n, conns, parent, comp, inner, known>>
Unlink(s, d) ==
    /\ <<s, d>> \in links
    /\ links' = links \ {<<s, d>>}
    /\ UNCHANGED <<n, conns, parent, comp, inner, known>>

(* Dependencies among the children of c: connections not touching c. *)
Deps(c) == {<<Owner(x[1]), Owner(x[2])>> : x \in
               {y \in links : /\ Owner(y[1]) # Owner(y[2])
                              /\ parent[Owner(y[1])] = c /\ parent[Owner(y[2])] = c}}
(* Blocks next to the relays of c. *)
Introspect(c) ==
    {Owner(x[2]) : x \in {y \in links : y[1][1] = c /\ y[1][2] = "in"}}
    \cup {Owner(x[1]) : x \in {y \in links : y[2][1] = c /\ y[2][2] = "out"}}

Reorder(c, starts) ==
    /\ LET from == (IF starts = {} THEN Introspect(c) ELSE starts) \ {c}
           S == Network(from, Deps(c))
       IN inner' = [inner EXCEPT ![c] = [blocks |-> S, deps |-> {e \in Deps(c) : e[1] \in S}]]
    /\ known' = [known EXCEPT ![c] = <<>>]
    /\ UNCHANGED <<n, conns, parent, comp, links>>

(***************************************************************************)
(* An update of a block. runs is the sequence, in the order they started,  *)
(* of composite updates with the blocks each of them updated directly.     *)
(***************************************************************************)
KidsOf(runs, c) ==
    LET r == SelectSeq(runs, LAMBDA x : x.who = c)
    IN IF r = <<>> THEN <<>> ELSE r[1].kids
RECURSIVE Expand(_, _, _), ExpandAll(_, _, _)
Expand(runs, b, depth) ==
    IF b \notin comp \/ depth = 0 THEN <<>>
    ELSE <<[who |-> b, kids |-> KidsOf(runs, b)]>> \o ExpandAll(runs, KidsOf(runs, b), depth - 1)
ExpandAll(runs, kids, depth) ==
    IF kids = <<>> THEN <<>>
    ELSE Expand(runs, Head(kids), depth) \o ExpandAll(runs, Tail(kids), depth)

InnerOk(c, kids) ==
    /\ IsPermutation(kids, inner[c].blocks)
    /\ Dependencies(kids, inner[c].deps)
    /\ known[c] # <<>> => kids = known[c]

Update(b, runs) ==
    /\ runs = Expand(runs, b, n)
    /\ \A r \in ToSet(runs) : InnerOk(r.who, r.kids)
    /\ known' = [c \in comp |-> IF \E r \in ToSet(runs) : r.who = c THEN KidsOf(runs, c) ELSE known[c]]
    /\ UNCHANGED <<n, conns, parent, comp, links, inner>>

(***************************************************************************)
(* What is connected while block b is unpatched; afterwards nothing has    *)
(* changed, however the block of code is left.                             *)
(***************************************************************************)
Unpatched(b) == {x \in links :
    ~ \/ (x[2][1] = b /\ x[2][2] = "in" /\ Owner(x[1]) # b)
      \/ (x[1][1] = b /\ x[1][2] = "out" /\ Owner(x[2]) # b)}
Unpatch(b, inside) ==
    /\ inside = Unpatched(b)
    /\ UNCHANGED cvars

(* Starting a network: log are the leaf blocks updated in one cycle; the   *)
(* warning names exactly those which were updated more than once. Different *)
(* blocks may have the same name.                                          *)
Count(log, b) == Len(SelectSeq(log, LAMBDA x : x = b))
Start(log, warned, alarm, name) ==
    /\ alarm = (warned # {})
    /\ warned = {name[b] : b \in {x \in ToSet(log) : Count(log, x) > 1}}
    /\ UNCHANGED cvars
=============================================================================
