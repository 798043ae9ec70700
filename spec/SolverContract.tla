--------------------------- MODULE SolverContract ---------------------------
(***************************************************************************)
(* What a search may return (S01 - S04, S07).  Each record of TRACE is one *)
(* maze together with what the real solvers returned on it; the state      *)
(* machine looks at the records one by one and reports those returns that  *)
(* no legal search could have produced.                                    *)
(*                                                                         *)
(* Record: id, kind ("c" grid, "g" graph, "h" see Halls), sizes, blocked   *)
(* (indices), n, edges (<<u, v, w>>), s, e, and res: a sequence of         *)
(*   [sv |-> solver, cfg |-> letter, oct |-> BOOLEAN, rev |-> BOOLEAN,     *)
(*    opt |-> "steps" | "cost" | "no", lim |-> BOOLEAN (memory limited),   *)
(*    err |-> "" or what was thrown, path |-> indices]                     *)
(***************************************************************************)
EXTENDS Halls, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES i, done

(***************************************************************************)
(* The shape of each solver's answer: is the list in order of travel       *)
(* ("fwd") or from the end back to the start ("bwd"), and does it include  *)
(* the start and the end?                                                  *)
(***************************************************************************)
Form(sv, kind, rev) ==
    CASE sv \in {"dfs", "gdfs", "best_first", "gbest_first"} -> <<"fwd", FALSE, TRUE>>
      [] sv \in {"dijkstra"} -> <<"fwd", TRUE, TRUE>>
      [] sv \in {"eidastar"} -> <<"fwd", TRUE, TRUE>>
      [] sv \in {"idastar", "idbest_first", "eidbest_first", "iddfs", "eiddfs"} -> <<"bwd", TRUE, TRUE>>
      [] sv \in {"smastar", "osmastar"} -> <<"fwd", TRUE, FALSE>>
      [] rev /\ kind # "g" /\ sv # "astar" -> <<"bwd", TRUE, FALSE>>
      [] rev -> <<"fwd", FALSE, TRUE>>
      [] OTHER -> <<"bwd", FALSE, TRUE>>

\* The whole walk from s to e that an answer stands for.
Whole(path, form, s, e) ==
    LET fwd == IF form[1] = "fwd" THEN path ELSE Reverse(path)
        a   == IF form[2] THEN <<>> ELSE <<s>>
        b   == IF form[3] THEN <<>> ELSE <<e>>
    IN a \o fwd \o b

Open(r) == IF r.kind = "c" THEN (0..(r.n - 1)) \ { r.blocked[k] : k \in 1..Len(r.blocked) }
           ELSE { x[1] : x \in { r.edges[k] : k \in 1..Len(r.edges) } } \cup { x[2] : x \in { r.edges[k] : k \in 1..Len(r.edges) } }

Edges(r) == { <<r.edges[k][1], r.edges[k][2], r.edges[k][3]>> : k \in 1..Len(r.edges) }

\* (IF rather than \/, which TLC would explore as alternatives)
Expect(cond, k, why) == IF cond THEN TRUE ELSE PrintT(<<"BAD", i, k, why>>)

\* One answer, given the facts about its maze.
Judge(r, k, x, adj, dist, costs) ==
    LET whole == TLCEval(Whole(x.path, Form(x.sv, r.kind, x.rev), r.s, r.e))
        legal == IF x.sv = "flood" THEN x.path = <<r.e>>
                 ELSE IF r.s = r.e THEN x.path = <<r.e>>
                 ELSE IF r.kind = "h" THEN HallRoute(r, whole, x.oct)
                 ELSE IsRoute(adj, whole, r.s, r.e)
    IN CASE x.err # "" -> Expect(FALSE, k, "error")
         [] Prop = "S01" -> Expect(x.path = <<>> \/ legal, k, "not a route")
         [] Prop = "S02" -> Expect((x.path # <<>>) = (dist >= 0), k, IF dist >= 0 THEN "no route returned" ELSE "route returned though there is none")
         [] Prop = "S03" -> Expect(x.opt # "steps" \/ x.path = <<>> \/ r.s = r.e \/ (legal /\ Len(whole) - 1 = dist), k, "not shortest")
         [] Prop = "S04" -> Expect(x.opt # "cost" \/ x.path = <<>> \/ r.s = r.e \/ (legal /\ RouteCost(Edges(r), whole, 1) = costs[r.e]), k, "not cheapest")
         [] Prop = "S07" -> Expect(IF x.path = <<>> THEN (x.lim \/ dist < 0)
                                   ELSE /\ legal
                                        /\ (x.lim \/ x.opt # "steps" \/ r.s = r.e \/ Len(whole) - 1 = dist), k, "not legal")

CheckHalls(r) ==
    LET da == HallDist(r, FALSE)
        do == HallDist(r, TRUE)
    IN \A k \in 1..Len(r.res) : LET x == r.res[k] IN Judge(r, k, x, <<>>, IF x.oct THEN do ELSE da, <<>>)

CheckMaze(r) ==
    LET open  == TLCEval(Open(r))
        axis  == TLCEval(IF r.kind = "c" THEN GridAdj(r.sizes, open, FALSE) ELSE GraphAdj(r.n, Edges(r)))
        octile == TLCEval(IF r.kind = "c" /\ \E k \in 1..Len(r.res) : r.res[k].oct THEN GridAdj(r.sizes, open, TRUE) ELSE axis)
        \* start and end are in the maze and open
        ok    == r.s \in open /\ r.e \in open
        da    == TLCEval(IF ok THEN StepDist(axis, r.s, r.e) ELSE -1)
        do    == TLCEval(IF ok THEN StepDist(octile, r.s, r.e) ELSE -1)
        costs == TLCEval(IF r.kind = "g" /\ Prop = "S04" THEN CostFrom(r.n, Edges(r), r.s) ELSE <<>>)
    IN \A k \in 1..Len(r.res) :
         LET x == r.res[k] IN Judge(r, k, x, IF x.oct THEN octile ELSE axis, IF x.oct THEN do ELSE da, costs)

CheckRecord(r) == IF r.kind = "h" THEN CheckHalls(r) ELSE CheckMaze(r)

Init == i \in 1..Len(Recs) /\ done = FALSE

Next == /\ ~done
        /\ CheckRecord(Recs[i]) = TRUE
        /\ PrintT(<<"DONE", i>>)
        /\ done' = TRUE
        /\ i' = i

Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
