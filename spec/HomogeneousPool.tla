-------------------------- MODULE HomogeneousPool --------------------------
(***************************************************************************)
(* The algorithm of homogeneous_pool: a write position in the stack block, *)
(* then any free chunk, then a new block cut into chunks. Deallocated      *)
(* chunks (those of the stack block too) are free again. Resetting cuts    *)
(* every block into chunks wide enough for anything that may be asked for. *)
(* All requests of an epoch are of one size, and all of a pool have one    *)
(* alignment. Checked to do only what Pool allows (M03).                   *)
(***************************************************************************)
EXTENDS PoolImpl

Shape(s, w, m, a, o) == [stack |-> s, maxalign |-> 4, maxstack |-> m, maxblock |-> 16, width |-> w, align |-> a, ops |-> o]
Quick    == { Shape(8, 7, 99, 4, 5), Shape(6, 5, 3, 2, 5), Shape(4, 8, 99, 8, 5) }
Thorough == { Shape(s, w, m, a, 6) : s \in {4, 6}, w \in {3, 8}, m \in {3, 99}, a \in {1, 4, 8} }

\* size: what the requests of this epoch ask for (0: there was none yet)
Fresh == [sw |-> 0, width |-> cfg.width, blocks |-> <<>>, free |-> {}, size |-> 0]
Emptied(s) == [s EXCEPT !.sw = 0, !.blocks = <<>>, !.free = {}, !.size = 0]

Init == Commission(Fresh)

Sizes == { n \in {1, 3, 5, 8} : n <= Min(cfg.width, cfg.maxblock) }

Begin(p, n) ==
    /\ p \in DOMAIN st /\ st[p].size \in {0, n}
    /\ CanAct
    /\ failed' = FALSE
    /\ pc' = [Idle EXCEPT !.op = "alloc", !.p = p, !.n = n, !.al = cfg.align]
    /\ used' = used + 1
    /\ st' = [st EXCEPT ![p].size = n]
    /\ UNCHANGED <<up, objs, live, cfg, top>>

Serve ==
    /\ pc.op = "alloc"
    /\ LET s == st[pc.p] IN
         IF s.sw < cfg.stack /\ StackFits(s, pc.n, pc.al) THEN FromStack
         ELSE IF s.free # {} THEN \E a \in s.free : Hand(a, [s EXCEPT !.free = @ \ {a}])
         ELSE Goto("grow") /\ UNCHANGED <<pvars, cfg, st, used, top>>

Expand == pc.op = "grow" /\ Grow(Max(st[pc.p].width, Max(pc.n, pc.al)))

Note == /\ pc.op = "taken"
        /\ LET s == st[pc.p]
               n == up[pc.a].size
               chunk == RoundUp(pc.n, pc.al) IN
             Hand(pc.a, [s EXCEPT !.blocks = Append(@, [addr |-> pc.a, size |-> n]),
                                  !.free = @ \cup { pc.a + i * chunk : i \in 1 .. (n \div chunk) - 1 },
                                  !.width = Min((@ * 3) \div 2, cfg.maxblock)])

\* Without memory for the list of free chunks this one is not used until the next reset.
Dealloc(x) ==
    /\ CanAct
    /\ live' = Without(live, {x})
    /\ used' = used + 1
    /\ \E more \in { {live[x].addr}, {} } : st' = [st EXCEPT ![live[x].pool].free = @ \cup more]
    /\ UNCHANGED <<up, objs, failed, cfg, pc, top>>

Chunks(b, w) == { b.addr + i * w : i \in 0 .. Max(b.size \div w, 1) - 1 }

DoReset(p) ==
    /\ CanAct /\ p \in DOMAIN objs
    /\ live' = Without(live, Of(p))
    /\ LET s == st[p]
           all == UNION { Chunks(s.blocks[i], RoundUp(cfg.width, cfg.align)) : i \in DOMAIN s.blocks } IN
         \E chunks \in { all, {} } :
           st' = [st EXCEPT ![p] = [s EXCEPT !.sw = 0, !.width = cfg.width, !.free = chunks, !.size = 0]]
    /\ used' = used + 1
    /\ UNCHANGED <<up, objs, failed, cfg, pc, top>>

\* The chunks of the stack block stay behind.
Moved(p) == [st[p] EXCEPT !.free = { a \in @ : ~ Inside(a, 1, objs[p].addr, objs[p].size) }]

Clients ==
    \/ \E p \in DOMAIN objs, n \in Sizes : Begin(p, n)
    \/ \E x \in DOMAIN live : Dealloc(x)
    \/ \E p \in DOMAIN objs : Release(p, Fresh) \/ Destruct(p) \/ DoReset(p)
    \/ \E p, q \in {1, 2} : p \in DOMAIN objs /\ (MoveTo(p, q, Moved(p), Emptied(st[p])) \/ AssignTo(p, q, Moved(p), Emptied(st[p])))

Next == Clients \/ Serve \/ Expand \/ Note \/ CannotNote \/ Undo \/ Throw \/ FreeOne \/ Born

Spec == Init /\ [][Next]_vars

\* A free chunk holds whatever this epoch asks for, lies in memory of the pool, and nobody else has it.
FreeIsFree ==
    \A p \in DOMAIN st : p \in DOMAIN objs => \A a \in st[p].free :
        LET n == Max(st[p].size, 1) IN
        /\ a % cfg.align = 0
        /\ \/ Inside(a, n, objs[p].addr, objs[p].size)
           \/ \E i \in DOMAIN st[p].blocks : Inside(a, n, st[p].blocks[i].addr, st[p].blocks[i].size)
        /\ \A o \in st[p].free \ {a} : Disjoint(a, n, o, n)
        /\ \A x \in DOMAIN live : Disjoint(a, n, live[x].addr, live[x].size)
=============================================================================
