------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session: a client runs searches one after another on the same three   *)
(* memory pools, whose memory comes from the heap; allocations may fail.   *)
(*                                                                         *)
(* live     the blocks in use: a function from their names to              *)
(*          [r, size, align], r = 0 the heap, 1..3 the pools               *)
(* cur      the search that runs, or NoSearch                              *)
(* failed   has an allocation failed during the search that runs?          *)
(* answers  what each request was answered                                 *)
(* over     the pools are gone                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES live, cur, failed, answers, over

svars == <<live, cur, failed, answers, over>>

Pools == {1, 2, 3}
NoSearch == [req |-> -1, cleanup |-> FALSE]
BadAlloc == "bad_alloc"
NoBlocks == [x \in {} |-> [r |-> 0, size |-> 0, align |-> 0]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Of(r) == { x \in DOMAIN live : live[x].r = r }

SessionInit ==
    /\ live = NoBlocks
    /\ cur = NoSearch
    /\ failed = FALSE
    /\ answers = [q \in {} |-> ""]
    /\ over = FALSE

\* A block is handed out: it is new, and (pools are only used by searches) a search runs.
Alloc(r, b, size, align) ==
    /\ ~over
    /\ b > 0 /\ b \notin DOMAIN live
    /\ (r \in Pools => cur # NoSearch)
    /\ live' = (b :> [r |-> r, size |-> size, align |-> align]) @@ live
    /\ UNCHANGED <<cur, failed, answers, over>>

\* A block is handed back: to where it came from, once, as what it was taken. The heap need not be told the size.
Dealloc(r, b, size, align) ==
    /\ b \in DOMAIN live
    /\ live[b].r = r
    /\ live[b].align = align
    /\ live[b].size = size \/ (r = 0 /\ size = 0)
    /\ (r \in Pools => cur # NoSearch)
    /\ live' = Without(live, {b})
    /\ UNCHANGED <<cur, failed, answers, over>>

\* All the blocks of a pool end: by the search that ends, or by the client between searches.
Reset(r) ==
    /\ ~over
    /\ r \in Pools
    /\ cur # NoSearch => cur.cleanup
    /\ live' = Without(live, Of(r))
    /\ UNCHANGED <<cur, failed, answers, over>>

Fail(r) ==
    /\ cur # NoSearch
    /\ failed' = TRUE
    /\ UNCHANGED <<live, cur, answers, over>>

Begin(q, cleanup) ==
    /\ ~over /\ cur = NoSearch
    /\ cur' = [req |-> q, cleanup |-> cleanup]
    /\ failed' = FALSE
    /\ UNCHANGED <<live, answers, over>>

\* The answer is a function of the request, unless memory failed; a cleaned up search leaves nothing in the pools.
End(answer) ==
    /\ cur # NoSearch
    /\ cur.cleanup => \A r \in Pools : Of(r) = {}
    /\ IF answer = BadAlloc THEN failed /\ UNCHANGED answers
       ELSE IF cur.req \in DOMAIN answers THEN answers[cur.req] = answer /\ UNCHANGED answers
       ELSE answers' = (cur.req :> answer) @@ answers
    /\ cur' = NoSearch
    /\ failed' = FALSE
    /\ UNCHANGED <<live, over>>

\* The pools are destroyed: the heap has everything back.
Destroy ==
    /\ ~over /\ cur = NoSearch
    /\ Of(0) = {}
    /\ over' = TRUE
    /\ live' = NoBlocks
    /\ UNCHANGED <<cur, failed, answers>>
=============================================================================
