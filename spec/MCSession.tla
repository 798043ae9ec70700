------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* Session, checked by itself with few blocks and an environment that      *)
(* does anything the machine permits.                                      *)
(***************************************************************************)
EXTENDS Session

CONSTANT Blocks

Sizes == {8, 16}
Requests == {0, 1}
Answers == {"a", "b", BadAlloc}

Init == SessionInit

Next == \/ \E r \in {0} \cup Pools, b \in 1..Blocks, n \in Sizes : Alloc(r, b, n, 8)
        \/ \E r \in {0} \cup Pools, b \in 1..Blocks, n \in Sizes : Dealloc(r, b, n, 8)
        \/ \E r \in Pools : Reset(r)
        \/ \E r \in {0} \cup Pools : Fail(r)
        \/ \E rq \in Requests, c \in BOOLEAN : Begin(rq, c)
        \/ \E a \in Answers : End(a)
        \/ Destroy

Spec == Init /\ [][Next]_svars

TypeOK == /\ DOMAIN live \subseteq 1..Blocks
          /\ DOMAIN answers \subseteq Requests
          /\ BadAlloc \notin { answers[rq] : rq \in DOMAIN answers }
\* Once gone, the pools hold nothing, and the heap has everything.
HeapBack == over => live = NoBlocks
\* A search that cleans up leaves nothing in the pools.
CleanEnd == [][(cur # NoSearch /\ cur' = NoSearch /\ cur.cleanup) => \A x \in DOMAIN live' : live'[x].r = 0]_svars
\* An answer, once given, stays.
AnswersStay == [][\A rq \in DOMAIN answers : rq \in DOMAIN answers' /\ answers'[rq] = answers[rq]]_svars
=============================================================================
