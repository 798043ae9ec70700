-------------------------------- MODULE MCHeap --------------------------------
(***************************************************************************)
(* The k-ary array which implements the heap (include/types/containers/    *)
(* heap.hpp), and that it does what Containers promises: checked over all  *)
(* sequences of operations with a bounded number of elements and keys.     *)
(*                                                                         *)
(* arr    the elements <<key, name>>, arr[1] the top                       *)
(* ord    "heap", "tail" (elements from pend on are not sorted) or "loose" *)
(* items  the bag as Containers has it                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Bounds \* set of [k, names, keys]

Quick == { [k |-> j, names |-> 6, keys |-> 3] : j \in {2, 3, 4} }
Thorough == { [k |-> j, names |-> 8, keys |-> 3] : j \in {2, 3, 4, 5} } \cup { [k |-> j, names |-> 7, keys |-> 4] : j \in {2, 3} }

VARIABLES k, names, keys, arr, ord, pend, box, gone

C == INSTANCE Containers

vars == <<k, names, keys, arr, ord, pend, box, gone>>

Parent(i) == IF i > 1 THEN ((i - 2) \div k) + 1 ELSE 0
FirstChild(i) == (i - 1) * k + 2
N == Len(arr)

\* comp(a, b): a is less than b
Less(a, b) == a[1] < b[1]
SwapIn(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]

RECURSIVE Up(_, _), Down(_, _)
Up(a, i) == IF i > 1 /\ Less(a[Parent(i)], a[i]) THEN Up(SwapIn(a, i, Parent(i)), Parent(i)) ELSE a
Down(a, i) ==
    LET cs == { j \in FirstChild(i)..(FirstChild(i) + k - 1) : j <= Len(a) } IN
      IF cs = {} THEN a
      ELSE LET best == CHOOSE b \in cs : \A j \in cs : ~Less(a[b], a[j]) /\ (a[j][1] = a[b][1] => b <= j) IN
             IF Less(a[i], a[best]) THEN Down(SwapIn(a, i, best), best) ELSE a
RECURSIVE Heapify(_, _)
Heapify(a, i) == IF i = 0 THEN a ELSE Heapify(Down(a, i), i - 1)
RECURSIVE SortFrom(_, _)
SortFrom(a, i) == IF i > Len(a) THEN a ELSE SortFrom(Up(a, i), i + 1)

Names == 1..names
\* Names are interchangeable: states which differ in them only are one.
View == <<k, names, keys, [i \in 1..N |-> arr[i][1]], ord, pend>>
Keys == 1..keys
Used == { arr[i][2] : i \in 1..N }

Fresh == CHOOSE x \in Names : x \notin Used /\ \A y \in Names \ Used : x <= y

Becomes(a, o, p) == arr' = a /\ (IF Len(a) <= 1 THEN ord' = "heap" /\ pend' = 0 ELSE ord' = o /\ pend' = p)
Worn == IF ord = "heap" THEN "heap" ELSE "loose"
Same == UNCHANGED <<k, names, keys>>

\* the array after element i has left (erase)
Erased(i) == IF i = N THEN SubSeq(arr, 1, N - 1)
             ELSE LET a == [SubSeq(arr, 1, N - 1) EXCEPT ![i] = arr[N]] IN
                    IF i > 1 /\ Less(a[Parent(i)], a[i]) THEN Up(a, i) ELSE Down(a, i)

Push == /\ Cardinality(Used) < names
        /\ \E key \in Keys, fresh \in {Fresh} :
              /\ Becomes(Up(Append(arr, <<key, fresh>>), N + 1), Worn, 0)
              /\ C!HPush(1, <<key, fresh>>)
Defer == /\ Cardinality(Used) < names
         /\ \E key \in Keys, fresh \in {Fresh} :
              /\ Becomes(Append(arr, <<key, fresh>>), IF ord = "heap" THEN "tail" ELSE ord, IF ord = "heap" THEN N + 1 ELSE pend)
              /\ C!HAppend(1, <<key, fresh>>)
SortTail == /\ ord = "tail"
            /\ Becomes(SortFrom(arr, pend), "heap", 0)
            /\ C!HSort(1)
Pop == /\ N > 0
       /\ Becomes(IF N = 1 THEN <<>> ELSE Down([SubSeq(arr, 1, N - 1) EXCEPT ![1] = arr[N]], 1), Worn, 0)
       /\ C!HRemoveTop(1, arr[1][2])
PopBack == /\ N > 0
           /\ Becomes(SubSeq(arr, 1, N - 1), Worn, 0)
           /\ C!HRemove(1, arr[N][2])
Erase == \E i \in 1..N : Becomes(Erased(i), Worn, 0) /\ C!HRemove(1, arr[i][2])
EraseRange == \E i \in 1..N : \E j \in i..N :
                 /\ LET a == SubSeq(arr, 1, i - 1) \o SubSeq(arr, j + 1, N) IN
                      Becomes(LET m == Len(a) IN IF m > 1 THEN Heapify(a, (m - 2) \div k + 1) ELSE a, Worn, 0)
                 /\ C!HRemoveAll(1, { arr[x] : x \in i..j })
Rekey == /\ ord = "heap"
         /\ \E i \in 1..N : \E key \in Keys :
              /\ LET a == [arr EXCEPT ![i] = <<key, arr[i][2]>>] IN Becomes(IF key > arr[i][1] THEN Up(a, i) ELSE Down(a, i), "heap", 0)
              /\ C!HRekey(1, arr[i][2], key)

Init == /\ \E b \in Bounds : k = b.k /\ names = b.names /\ keys = b.keys
        /\ arr = <<>> /\ ord = "heap" /\ pend = 0
        /\ box = (1 :> C!EmptyHeap) /\ gone = {}

Next == Same /\ (Push \/ Defer \/ SortTail \/ Pop \/ PopBack \/ Erase \/ EraseRange \/ Rekey)

Spec == Init /\ [][Next]_vars

\* ---- what is checked

TypeOK == ord \in {"heap", "tail", "loose"} /\ N <= names /\ Cardinality(Used) = N
SameItems == { arr[i] : i \in 1..N } = box[1].items /\ ord = box[1].order
HeapOrder == ord = "heap" => \A i \in 2..N : ~Less(arr[Parent(i)], arr[i])
TopIsLargest == C!HShows(box[1], N, IF N > 0 THEN arr[1] ELSE <<0, 0>>, IF N > 0 THEN arr[N] ELSE <<0, 0>>, arr)

=============================================================================
