------------------------------ MODULE Containers ------------------------------
(***************************************************************************)
(* What the containers owe their users (C01-C03).                          *)
(*                                                                         *)
(* A client has containers in slots; box is a function from the slots in   *)
(* use to what they hold; one that was moved from is in gone and not       *)
(* looked at until something is assigned to it.                            *)
(*                                                                         *)
(* heap           [items : SUBSET (key \X name), order]                    *)
(*                order = "heap": the top is a largest element;            *)
(*                "tail": elements were appended which are not sorted yet; *)
(*                "loose": the heap was used before they were, all that is *)
(*                promised until it is empty is that nothing is lost       *)
(* queue, stack   a sequence, oldest first                                 *)
(* existence set  a set of keys                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES box, gone
cvars == <<box, gone>>

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(s, v) == box' = (s :> v) @@ box /\ gone' = gone \ {s}
InUse == DOMAIN box \ gone
Boxed == DOMAIN box

Create(s, v) == s \notin Boxed /\ Put(s, v)
Destroy(s) == s \in Boxed /\ box' = Without(box, {s}) /\ gone' = gone \ {s}
CopyTo(d, s, v) == s \in InUse /\ Put(d, v)
MoveTo(d, s, v) == s \in InUse /\ d # s /\ box' = (d :> v) @@ box /\ gone' = (gone \ {d}) \cup {s}
Swap(s, d) == {s, d} \subseteq InUse /\ box' = (s :> box[d] @@ d :> box[s]) @@ box /\ UNCHANGED gone

\* ---- heap

EmptyHeap == [items |-> {}, order |-> "heap"]
Heap(items, order) == [items |-> items, order |-> IF Cardinality(items) <= 1 THEN "heap" ELSE order]
\* What using a heap does to one that is not sorted.
Used(order) == IF order = "heap" THEN "heap" ELSE "loose"
Outranked(x, items) == \E y \in items : y[1] > x[1]
ItemOf(s, name) == CHOOSE x \in box[s].items : x[2] = name
Has(s, name) == \E x \in box[s].items : x[2] = name

HPush(s, x) == ~Has(s, x[2]) /\ Put(s, Heap(box[s].items \cup {x}, Used(box[s].order)))
HAppend(s, x) == ~Has(s, x[2]) /\ Put(s, Heap(box[s].items \cup {x}, IF box[s].order = "heap" THEN "tail" ELSE box[s].order))
HSort(s) == Put(s, Heap(box[s].items, IF box[s].order = "tail" THEN "heap" ELSE box[s].order))
\* One element leaves: which one it is, its name says.
HRemove(s, name) == Has(s, name) /\ Put(s, Heap(box[s].items \ {ItemOf(s, name)}, Used(box[s].order)))
HRemoveTop(s, name) == /\ HRemove(s, name)
                       /\ IF box[s].order = "heap" THEN ~Outranked(ItemOf(s, name), box[s].items) ELSE TRUE
HRemoveAll(s, xs) == xs \subseteq box[s].items /\ Put(s, Heap(box[s].items \ xs, Used(box[s].order)))
HRekey(s, name, key) == Has(s, name) /\ Put(s, Heap((box[s].items \ {ItemOf(s, name)}) \cup {<<key, name>>}, box[s].order))

\* What a heap shows: its size, its top and its last element, and all of its elements.
HShows(h, size, top, back, seen) ==
    LET S == { seen[k] : k \in 1..Len(seen) } IN
      /\ size = Cardinality(h.items) /\ Len(seen) = size /\ S = h.items
      /\ size > 0 => /\ top \in h.items /\ back \in h.items
                     /\ h.order = "heap" => ~Outranked(top, h.items)

\* ---- queue and stack

SPush(s, x) == Put(s, Append(box[s], x))
SPop(s, x, lifo) == LET n == Len(box[s]) IN
    /\ n > 0
    /\ x = IF lifo THEN box[s][n] ELSE box[s][1]
    /\ Put(s, IF lifo THEN SubSeq(box[s], 1, n - 1) ELSE SubSeq(box[s], 2, n))
SShows(q, size, top, seen, back, lifo) ==
    /\ size = Len(q) /\ seen = q
    /\ back = [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
    /\ Len(q) > 0 => top = IF lifo THEN q[Len(q)] ELSE q[1]

\* ---- existence set

EAdd(s, k) == Put(s, box[s] \cup {k})
EDel(s, k) == Put(s, box[s] \ {k})
\* Room for exactly the keys below n; those that there was no room for before are added or not.
EResize(s, size, n, fill) == Put(s, { k \in box[s] : k < n } \cup (IF fill THEN size..(n - 1) ELSE {}))
=============================================================================
