--------------------------- MODULE MonotonicPool ---------------------------
(***************************************************************************)
(* The algorithm of monotonic_pool: a write position in the stack block,   *)
(* then one in the newest of a list of growing blocks; a new block when    *)
(* the request does not fit. Deallocation does nothing, and resetting      *)
(* releases. Checked to do only what Pool allows (M01).                    *)
(***************************************************************************)
EXTENDS PoolImpl

Shape(s, w, m, z, o) == [stack |-> s, maxalign |-> 4, maxstack |-> m, maxblock |-> 12, width |-> w, sizes |-> z, ops |-> o]
Quick    == { Shape(8, 3, 99, {3, 6}, 4), Shape(6, 12, 4, {1, 3, 13}, 3) }
Thorough == { Shape(s, w, m, {1, 3, 6, 13}, 4) : s \in {5, 8}, w \in {2, 7}, m \in {4, 99} } \cup { Shape(6, 5, 99, {3, 6}, 5) }

Aligns == {1, 4, 8}

Fresh == [sw |-> 0, bw |-> 0, active |-> 0, width |-> cfg.width, blocks |-> <<>>]

Init == Commission(Fresh)

\* The block that is written to; none if it is smaller than the next is meant to be.
Current(s) == s.blocks[s.active + 1]
Usable(s) == s.blocks # <<>> /\ Current(s).size >= s.width
At(s) == RoundUp(Current(s).addr + s.bw, pc.al)
Fits(s) == Usable(s) /\ At(s) + pc.n <= Current(s).addr + Current(s).size

Serve ==
    /\ pc.op = "alloc"
    /\ LET s == st[pc.p] IN
         IF StackFits(s, pc.n, pc.al) THEN FromStack
         ELSE IF Fits(s) THEN Hand(At(s), [s EXCEPT !.bw = At(s) - Current(s).addr + pc.n])
         ELSE IF s.active + 1 < Len(s.blocks)
         THEN LET b == s.blocks[s.active + 2] IN Hand(b.addr, [s EXCEPT !.active = @ + 1, !.width = b.size, !.bw = pc.n])
         ELSE /\ st' = [st EXCEPT ![pc.p].width = Max(cfg.width, Max(Min((@ * 3) \div 2, cfg.maxblock), pc.n))]
              /\ Goto("grow") /\ UNCHANGED <<pvars, cfg, used, top>>

Expand == pc.op = "grow" /\ Grow(st[pc.p].width)

Note == /\ pc.op = "taken"
        /\ LET s == st[pc.p] IN
             Hand(pc.a, [s EXCEPT !.blocks = Append(@, [addr |-> pc.a, size |-> s.width]), !.active = Len(s.blocks), !.bw = pc.n])

Clients ==
    \/ \E p \in DOMAIN objs, n \in cfg.sizes, al \in Aligns : BeginAlloc(p, n, al)
    \/ \E p \in DOMAIN objs : Release(p, Fresh) \/ Destruct(p)
    \/ \E p, q \in {1, 2} : p \in DOMAIN objs /\ (MoveTo(p, q, st[p], Fresh) \/ AssignTo(p, q, st[p], Fresh))

Next == Clients \/ Serve \/ Expand \/ Note \/ CannotNote \/ Undo \/ Throw \/ FreeOne \/ Born

Spec == Init /\ [][Next]_vars

\* Blocks are used up one after another: the newest is the one that is written to.
NewestIsCurrent == \A p \in DOMAIN st : st[p].active = Max(0, Len(st[p].blocks) - 1)
=============================================================================
