--------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* What a memory pool owes its clients and its upstream resource (M01-M03).*)
(*                                                                         *)
(* up      blocks taken from upstream and not given back: address ->       *)
(*         [size, align]                                                   *)
(* objs    the pools that exist: pool -> [addr, size] of the object        *)
(* live    blocks handed out to clients: name -> [pool, addr, size, align] *)
(* failed  has upstream failed since the allocation that runs began?       *)
(*                                                                         *)
(* Addresses are offsets into the memory that holds everything.            *)
(* Keep: does a block outlive its deallocation (monotonic pools)?          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES up, objs, live, failed

pvars == <<up, objs, live, failed>>

Nothing == [x \in {} |-> 0]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Inside(a, n, b, m) == b <= a /\ a + n <= b + m
Disjoint(a, n, b, m) == a + n <= b \/ b + m <= a

PoolInit == up = Nothing /\ objs = Nothing /\ live = Nothing /\ failed = FALSE

\* ---- upstream

Take(a, n, al) ==
    /\ a \notin DOMAIN up
    /\ up' = (a :> [size |-> n, align |-> al]) @@ up
    /\ UNCHANGED <<objs, live, failed>>

\* A block goes back once, and not while a client uses it.
Give(a) ==
    /\ a \in DOMAIN up
    /\ \A x \in DOMAIN live : Disjoint(live[x].addr, live[x].size, a, up[a].size)
    /\ up' = Without(up, {a})
    /\ UNCHANGED <<objs, live, failed>>

UpstreamFails == failed' = TRUE /\ UNCHANGED <<up, objs, live>>

\* ---- clients

AllocBegins == failed' = FALSE /\ UNCHANGED <<up, objs, live>>

Owned(p, a, n) ==
    \/ Inside(a, n, objs[p].addr, objs[p].size)
    \/ \E b \in DOMAIN up : Inside(a, n, b, up[b].size)

Allocate(p, name, a, n, al) ==
    /\ p \in DOMAIN objs
    /\ name \notin DOMAIN live
    /\ a >= 0 /\ a % al = 0
    /\ Owned(p, a, n)
    /\ \A x \in DOMAIN live : Disjoint(a, n, live[x].addr, live[x].size)
    /\ live' = (name :> [pool |-> p, addr |-> a, size |-> n, align |-> al]) @@ live
    /\ UNCHANGED <<up, objs, failed>>

\* The pool may only say that memory is exhausted if it is (no memory has 2 GB).
Exhausted(n) == (failed \/ n >= 2000000000) /\ UNCHANGED pvars

Nowhere == UNCHANGED pvars \* an allocation of no bytes

Deallocate(p, name, keep) ==
    /\ name \in DOMAIN live /\ live[name].pool = p
    /\ live' = (IF keep THEN live ELSE Without(live, {name}))
    /\ UNCHANGED <<up, objs, failed>>

Of(p) == { x \in DOMAIN live : live[x].pool = p }

Reset(p) == /\ p \in DOMAIN objs
            /\ live' = Without(live, Of(p))
            /\ UNCHANGED <<up, objs, failed>>

Construct(p, a, n) ==
    /\ p \notin DOMAIN objs
    /\ objs' = (p :> [addr |-> a, size |-> n]) @@ objs
    /\ UNCHANGED <<up, live, failed>>

Destroy(p) == /\ p \in DOMAIN objs
              /\ live' = Without(live, Of(p))
              /\ objs' = Without(objs, {p})
              /\ UNCHANGED <<up, failed>>

\* Blocks inside of the object that is moved from end; the others move along, and those of the pool that is assigned to end.
Handover(p, q) ==
    LET gone == { x \in Of(p) : Inside(live[x].addr, live[x].size, objs[p].addr, objs[p].size) } \cup Of(q)
        rest == Without(live, gone) IN
      [x \in DOMAIN rest |-> IF rest[x].pool = p THEN [rest[x] EXCEPT !.pool = q] ELSE rest[x]]

Move(p, q) == /\ p \in DOMAIN objs /\ q \notin DOMAIN objs
              /\ live' = Handover(p, q)
              /\ UNCHANGED <<up, objs, failed>>

Assign(p, q) == /\ {p, q} \subseteq DOMAIN objs
                /\ live' = (IF p = q THEN live ELSE Handover(p, q))
                /\ UNCHANGED <<up, objs, failed>>

\* Two pools are interchangeable if they are the same one (a container may free what another's pool allocated, then).
Compare(p, q, eq) == {p, q} \subseteq DOMAIN objs /\ (eq = 1 <=> p = q) /\ UNCHANGED pvars

\* All is given back once the pools are gone.
Finished == objs = Nothing /\ up = Nothing

\* ---- what follows from the above (checked by the models of the algorithms, which refine this module)

NoOverlap == \A x, y \in DOMAIN live : x # y => Disjoint(live[x].addr, live[x].size, live[y].addr, live[y].size)
AllOwned == \A x \in DOMAIN live : live[x].pool \in DOMAIN objs => Owned(live[x].pool, live[x].addr, live[x].size)
=============================================================================
