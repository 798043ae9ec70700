----------------------------- MODULE Deepening -----------------------------
(***************************************************************************)
(* The iterative-deepening searches of CHDR as a state machine: iddfs,     *)
(* eiddfs, idastar, eidastar, idbest_first, eidbest_first.                 *)
(*                                                                         *)
(* A round is a depth-first walk that goes on below a cell only while the  *)
(* cell's estimate is within the bound.  The estimate of a cell reached    *)
(* at cost g is (m.est)                                                    *)
(*   "g"  g            "f"  g + h        "h"  h                            *)
(* and a cell is entered only if (m.prune)                                 *)
(*   "path"   it is not on the current path                                *)
(*   "loose"  the same, but the start may be entered again                 *)
(*   "table"  it was not yet entered in this round at as low an estimate   *)
(* The goal is accepted wherever it turns up, or (m.strict) only within    *)
(* the bound.  The next bound is the least estimate that exceeded the last *)
(* one ("g": the last one plus one, which is the same); if none did, the   *)
(* search space is exhausted.                                              *)
(***************************************************************************)
EXTENDS Maze

VARIABLES
    m,      \* [adj, costs, start, goal, h, est, prune, strict]; never changes
    bound,
    frames, \* the path: a sequence of [c, g, tried (cells entered from here)]
    table,  \* estimates of the cells entered in this round: a set of <<c, f>> ("table" only)
    over,   \* least estimate that exceeded the bound in this round, INF if none did
    res     \* "rest" (between rounds), "run", "found", "fail"

dvars == <<m, bound, frames, table, over, res>>

Est(c, g) == CASE m.est = "g" -> g [] m.est = "f" -> g + m.h[c] [] OTHER -> m.h[c]

Top == frames[Len(frames)]
To(c) == Top.g + StepCost(m.costs, Top.c, c)

OnPath(c) == \E k \in 1..Len(frames) : frames[k].c = c

Tabled(c) == { e[2] : e \in { x \in table : x[1] = c } }

\* May c be entered from the top of the path?
Enterable(c) ==
    CASE m.prune = "path"  -> ~OnPath(c)
      [] m.prune = "loose" -> c = m.start \/ ~OnPath(c)
      [] OTHER -> \A f \in Tabled(c) : Est(c, To(c)) < f

Untried == { c \in m.adj[Top.c] \ Top.tried : Enterable(c) }

Inside(c)   == Est(c, To(c)) <= bound
Accepted(c) == c = m.goal /\ (m.strict => Inside(c))
\* Entering these is what the round has to do before it may leave the top of the path.
Duty == { c \in Untried : Accepted(c) \/ (Inside(c) /\ ~(m.prune = "loose" /\ c = m.start)) }

Entered(c) == IF m.prune = "table" THEN { x \in table : x[1] # c } \cup { <<c, Est(c, To(c))>> } ELSE table

DeepInit == /\ bound = (IF m.est = "g" THEN 0 ELSE m.h[m.start])
            /\ frames = <<>>
            /\ table = {}
            /\ over = INF
            /\ res = "rest"

\* A round begins at the start, with the next bound.
Round(first) ==
    /\ res = "rest"
    /\ first \/ over < INF
    /\ LET b == IF first THEN bound ELSE over IN
         /\ bound' = b
         /\ table' = (IF m.prune = "table" THEN { <<m.start, IF m.est = "f" THEN b ELSE m.h[m.start]>> } ELSE {})
    /\ frames' = << [c |-> m.start, g |-> 0, tried |-> {}] >>
    /\ over' = INF
    /\ res' = "run"
    /\ UNCHANGED m

\* Enter c from the top of the path, and go on below it if it is inside the bound.
Enter(c) ==
    /\ res = "run"
    /\ c \in Untried /\ ~Accepted(c)
    /\ table' = Entered(c)
    /\ LET rest == [frames EXCEPT ![Len(frames)].tried = @ \cup {c}] IN
         IF Inside(c) THEN /\ frames' = Append(rest, [c |-> c, g |-> To(c), tried |-> {}])
                           /\ UNCHANGED over
         ELSE /\ frames' = rest
              /\ over' = Min2(over, Est(c, To(c)))
    /\ UNCHANGED <<m, bound, res>>

\* Leave the top of the path; what is left untried lies beyond the bound.
Leave ==
    /\ res = "run"
    /\ Duty = {}
    /\ LET late == { c \in Untried : ~Inside(c) }
           es   == { Est(c, To(c)) : c \in late } \cup {over}
       IN /\ over' = (CHOOSE x \in es : \A y \in es : x <= y)
          /\ table' = (IF m.prune = "table" THEN { x \in table : x[1] \notin late } \cup { <<c, Est(c, To(c))>> : c \in late } ELSE table)
    /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
    /\ res' = (IF Len(frames) = 1 THEN "rest" ELSE "run")
    /\ UNCHANGED <<m, bound>>

Succeed == /\ res = "run"
           /\ \E c \in Untried : Accepted(c)
           /\ frames' = Append(frames, [c |-> m.goal, g |-> To(m.goal), tried |-> {}])
           /\ res' = "found"
           /\ UNCHANGED <<m, bound, table, over>>

\* The last round cut nothing off.
Fail == /\ res = "rest" /\ over = INF
        /\ res' = "fail"
        /\ UNCHANGED <<m, bound, frames, table, over>>
=============================================================================
