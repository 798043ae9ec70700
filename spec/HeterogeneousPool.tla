------------------------- MODULE HeterogeneousPool -------------------------
(***************************************************************************)
(* The algorithm of heterogeneous_pool: a write position in the stack      *)
(* block, then the smallest free region in which the request fits once it  *)
(* is aligned, then a new block whose rest becomes a free region.          *)
(* Deallocation does not return regions before the next reset, which makes *)
(* one region of every block. Checked to do only what Pool allows (M02).   *)
(***************************************************************************)
EXTENDS PoolImpl

Shape(s, w, m, z, o) == [stack |-> s, maxalign |-> 4, maxstack |-> m, maxblock |-> 12, width |-> w, sizes |-> z, ops |-> o]
Quick    == { Shape(4, 10, 99, {1, 6}, 4), Shape(6, 3, 2, {1, 3, 13}, 3) }
Thorough == { Shape(s, w, m, {1, 3, 6, 13}, 4) : s \in {4, 7}, w \in {2, 10}, m \in {2, 99} } \cup { Shape(3, 10, 99, {1, 3}, 5) }

Aligns == {1, 4, 8}

Fresh == [sw |-> 0, width |-> cfg.width, blocks |-> <<>>, free |-> {}]

Init == Commission(Fresh)

Want == RoundUp(pc.n, pc.al)
Fitting(s) == { r \in s.free : RoundUp(r.addr, pc.al) + Want <= r.addr + r.size }
Rest(a, n) == IF n = 0 THEN {} ELSE { [addr |-> a, size |-> n] }

Serve ==
    /\ pc.op = "alloc"
    /\ LET s == st[pc.p] IN
         IF StackFits(s, pc.n, pc.al) THEN FromStack
         ELSE IF Fitting(s) # {}
         THEN \E r \in Fitting(s) :
                /\ \A x \in Fitting(s) : r.size <= x.size
                /\ LET a == RoundUp(r.addr, pc.al) IN
                     Hand(a, [s EXCEPT !.free = (@ \ {r}) \cup Rest(a + Want, r.addr + r.size - a - Want)])
         ELSE Goto("grow") /\ UNCHANGED <<pvars, cfg, st, used, top>>

Expand == pc.op = "grow" /\ Grow(Max(st[pc.p].width, Want))

Note == /\ pc.op = "taken"
        /\ LET s == st[pc.p]
               n == up[pc.a].size IN
             Hand(pc.a, [s EXCEPT !.blocks = Append(@, [addr |-> pc.a, size |-> n]),
                                  !.free = @ \cup Rest(pc.a + Want, n - Want),
                                  !.width = Min((@ * 3) \div 2, cfg.maxblock)])

Dealloc(x) ==
    /\ CanAct
    /\ live' = Without(live, {x})
    /\ used' = used + 1
    /\ UNCHANGED <<up, objs, failed, cfg, st, pc, top>>

\* Without memory for the list of free regions there are none until the next reset.
DoReset(p) ==
    /\ CanAct /\ p \in DOMAIN objs
    /\ live' = Without(live, Of(p))
    /\ \E regions \in { { st[p].blocks[i] : i \in DOMAIN st[p].blocks }, {} } :
         st' = [st EXCEPT ![p] = [@ EXCEPT !.sw = 0, !.width = cfg.width, !.free = regions]]
    /\ used' = used + 1
    /\ UNCHANGED <<up, objs, failed, cfg, pc, top>>

Clients ==
    \/ \E p \in DOMAIN objs, n \in cfg.sizes, al \in Aligns : BeginAlloc(p, n, al)
    \/ \E x \in DOMAIN live : Dealloc(x)
    \/ \E p \in DOMAIN objs : Release(p, Fresh) \/ Destruct(p) \/ DoReset(p)
    \/ \E p, q \in {1, 2} : p \in DOMAIN objs /\ (MoveTo(p, q, st[p], Fresh) \/ AssignTo(p, q, st[p], Fresh))

Next == Clients \/ Serve \/ Expand \/ Note \/ CannotNote \/ Undo \/ Throw \/ FreeOne \/ Born

Spec == Init /\ [][Next]_vars

\* What is free lies in the pool's own blocks, once, and no client has it.
FreeIsFree ==
    \A p \in DOMAIN st : \A r \in st[p].free :
        /\ \E i \in DOMAIN st[p].blocks : Inside(r.addr, r.size, st[p].blocks[i].addr, st[p].blocks[i].size)
        /\ \A o \in st[p].free \ {r} : Disjoint(r.addr, r.size, o.addr, o.size)
        /\ \A x \in DOMAIN live : Disjoint(r.addr, r.size, live[x].addr, live[x].size)
=============================================================================
