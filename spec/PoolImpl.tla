------------------------------ MODULE PoolImpl ------------------------------
(***************************************************************************)
(* What the algorithms of the three pools have in common: clients, the     *)
(* upstream resource, the block inside of the pool object, and the claim   *)
(* that every step is one that Pool allows. An operation takes several     *)
(* steps, so that the order of what it does is checked too.                *)
(*                                                                         *)
(* cfg   the sizes of everything (constant): stack, what max_align_t is,   *)
(*       limits of stack allocations and of blocks, first block's width    *)
(* st    the state of every pool: sw (stack bytes used), width, blocks, .. *)
(* pc    the operation that runs, and its arguments                        *)
(* used  operations so far; top  the first address never used              *)
(***************************************************************************)
EXTENDS Pool

CONSTANT Shapes

VARIABLES cfg, st, pc, used, top

ivars == <<cfg, st, pc, used, top>>
vars == <<pvars, ivars>>

Idle == [op |-> "idle", p |-> 0, n |-> 0, al |-> 1, a |-> 0, todo |-> {}]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RoundUp(x, a) == ((x + a - 1) \div a) * a
Size == cfg.stack \* the object is no larger than its stack block here

Place(p) == cfg.maxalign + (p - 1) * 32 \* aligned for max_align_t and no further
FirstTop == 72

Commission(fresh) ==
    /\ cfg \in Shapes
    /\ up = Nothing /\ live = Nothing /\ failed = FALSE
    /\ objs = (1 :> [addr |-> Place(1), size |-> cfg.stack])
    /\ st = (1 :> fresh)
    /\ pc = Idle /\ used = 0 /\ top = FirstTop

CanAct == pc.op = "idle" /\ used < cfg.ops

\* ---- allocation

BeginAlloc(p, n, al) ==
    /\ CanAct /\ p \in DOMAIN objs
    /\ failed' = FALSE
    /\ pc' = [Idle EXCEPT !.op = "alloc", !.p = p, !.n = n, !.al = al]
    /\ used' = used + 1
    /\ UNCHANGED <<up, objs, live, cfg, st, top>>

StackAt(s, al) == RoundUp(s.sw, al)
StackFits(s, n, al) ==
    /\ al <= cfg.maxalign
    /\ RoundUp(n, al) < cfg.maxstack
    /\ StackAt(s, al) <= cfg.stack
    /\ RoundUp(n, al) <= cfg.stack - StackAt(s, al)

\* The client gets what is at a. (Whether that is right is for Pool to say.)
Hand(a, s) ==
    /\ live' = (used :> [pool |-> pc.p, addr |-> a, size |-> pc.n, align |-> pc.al]) @@ live
    /\ st' = [st EXCEPT ![pc.p] = s]
    /\ pc' = Idle
    /\ UNCHANGED <<up, objs, failed, cfg, used, top>>

FromStack == LET s == st[pc.p] IN Hand(objs[pc.p].addr + StackAt(s, pc.al), [s EXCEPT !.sw = StackAt(s, pc.al) + RoundUp(pc.n, pc.al)])

Goto(op) == pc' = [pc EXCEPT !.op = op]

\* Upstream may place a block anywhere: here, with or without more alignment than was asked for.
Grow(n) ==
    \/ \E k \in {0, 1} : LET a == RoundUp(top, pc.al) + k * pc.al IN
         /\ up' = (a :> [size |-> n, align |-> pc.al]) @@ up
         /\ top' = a + n
         /\ pc' = [pc EXCEPT !.op = "taken", !.a = a]
         /\ UNCHANGED <<objs, live, failed, cfg, st, used>>
    \/ /\ failed' = TRUE /\ Goto("throw") /\ UNCHANGED <<up, objs, live, cfg, st, used, top>>

\* Writing down the new block may fail, too; it is given back then.
CannotNote == pc.op = "taken" /\ failed' = TRUE /\ Goto("undo") /\ UNCHANGED <<up, objs, live, cfg, st, used, top>>
Undo == pc.op = "undo" /\ up' = Without(up, {pc.a}) /\ Goto("throw") /\ UNCHANGED <<objs, live, failed, cfg, st, used, top>>
Throw == pc.op = "throw" /\ pc' = Idle /\ UNCHANGED <<pvars, cfg, st, used, top>>

\* ---- the end of an epoch, a pool, or a pool's identity; blocks are given back one by one

Blocks(s) == { s.blocks[i].addr : i \in DOMAIN s.blocks }

GiveBack(S) == pc' = [Idle EXCEPT !.op = "free", !.todo = S]

FreeOne ==
    /\ pc.op = "free"
    /\ IF pc.todo = {} THEN pc' = Idle /\ UNCHANGED <<up>>
       ELSE \E a \in pc.todo : up' = Without(up, {a}) /\ pc' = [pc EXCEPT !.todo = @ \ {a}]
    /\ UNCHANGED <<objs, live, failed, cfg, st, used, top>>

Release(p, fresh) ==
    /\ CanAct /\ p \in DOMAIN objs
    /\ live' = Without(live, Of(p))
    /\ GiveBack(Blocks(st[p]))
    /\ st' = [st EXCEPT ![p] = fresh]
    /\ used' = used + 1
    /\ UNCHANGED <<up, objs, failed, cfg, top>>

Destruct(p) ==
    /\ CanAct /\ p \in DOMAIN objs
    /\ live' = Without(live, Of(p))
    /\ objs' = Without(objs, {p})
    /\ GiveBack(Blocks(st[p]))
    /\ st' = Without(st, {p})
    /\ used' = used + 1
    /\ UNCHANGED <<up, failed, cfg, top>>

\* What remains of p is left; q becomes what p was.
MoveTo(p, q, becomes, left) ==
    /\ CanAct /\ p \in DOMAIN objs /\ q \notin DOMAIN objs
    /\ live' = Handover(p, q)
    /\ st' = (q :> becomes) @@ (p :> left) @@ st
    /\ pc' = [Idle EXCEPT !.op = "born", !.p = q]
    /\ used' = used + 1
    /\ UNCHANGED <<up, objs, failed, cfg, top>>

Born ==
    /\ pc.op = "born"
    /\ objs' = (pc.p :> [addr |-> Place(pc.p), size |-> cfg.stack]) @@ objs
    /\ pc' = Idle
    /\ UNCHANGED <<up, live, failed, cfg, st, used, top>>

AssignTo(p, q, becomes, left) ==
    /\ CanAct /\ {p, q} \subseteq DOMAIN objs /\ p # q
    /\ live' = Handover(p, q)
    /\ st' = [st EXCEPT ![q] = becomes, ![p] = left]
    /\ GiveBack(Blocks(st[q]))
    /\ used' = used + 1
    /\ UNCHANGED <<up, objs, failed, cfg, top>>

\* ---- what must follow: every step is one that Pool allows, and nothing is lost

PoolStep ==
    \/ AllocBegins \/ UpstreamFails
    \/ \E a \in DOMAIN up' : Take(a, up'[a].size, up'[a].align)
    \/ \E a \in DOMAIN up : Give(a)
    \/ \E x \in DOMAIN live' : LET b == live'[x] IN Allocate(b.pool, x, b.addr, b.size, b.align)
    \/ \E x \in DOMAIN live : Deallocate(live[x].pool, x, FALSE)
    \/ \E p \in DOMAIN objs : Reset(p) \/ Destroy(p)
    \/ \E p \in DOMAIN objs' : Construct(p, objs'[p].addr, objs'[p].size)
    \/ \E p, q \in {1, 2} : Move(p, q) \/ Assign(p, q)

Refines == [][PoolStep]_pvars

\* A client is told that memory is exhausted only if it is.
ThrowsRightly == pc.op = "throw" => failed
\* Every block is known to exactly one pool, so all is given back in the end.
NoLeak == pc.op = "idle" =>
    /\ DOMAIN up = UNION { Blocks(st[p]) : p \in DOMAIN st }
    /\ \A p, q \in DOMAIN st : p # q => Blocks(st[p]) \cap Blocks(st[q]) = {}
    /\ \A p \in DOMAIN st : Cardinality(Blocks(st[p])) = Len(st[p].blocks)
=============================================================================
