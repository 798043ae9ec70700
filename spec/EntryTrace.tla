----------------------------- MODULE EntryTrace -----------------------------
(***************************************************************************)
(* What the real entry point did, as behaviours of Entry (S09).  Record:   *)
(* sizes, blocked, s, e (coordinates; those beyond 10^6 are given as       *)
(* 10^6), cleanup, fails, pools (3 modes), log (events), kind ("path" or   *)
(* "thrown"), path (indices; the stand-in algorithm answers end, start,    *)
(* end), exc.                                                              *)
(***************************************************************************)
EXTENDS Entry, Maze, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, done

vars == <<q, phase, left, log, exc, answer, t, l, done>>

Blocked(r) == { r.blocked[k] : k \in 1..Len(r.blocked) }
Good(r, c) == InGrid(c, r.sizes) /\ Index(c, r.sizes) \notin Blocked(r)

Init ==
    /\ t \in 1..Len(Recs)
    /\ l = 1 /\ done = FALSE
    /\ LET r == Recs[t] IN
         q = [inside |-> Good(r, r.s) /\ Good(r, r.e), same |-> r.s = r.e, cleanup |-> r.cleanup, fails |-> r.fails,
              pools |-> [p \in Pools |-> r.pools[p + 1]]]
    /\ EntryInit

Silent == /\ ~done
          /\ JudgeRequest
          /\ UNCHANGED <<t, l, done>>

Event == /\ ~done /\ l <= Len(Recs[t].log)
         /\ Run \/ (\E p \in Pools : Reset(p))
         /\ log' = SubSeq(Recs[t].log, 1, l)
         /\ l' = l + 1
         /\ UNCHANGED <<t, done>>

Finish == /\ ~done /\ l = Len(Recs[t].log) + 1
          /\ Return
          /\ LET r == Recs[t] IN
               IF exc # "" THEN r.kind = "thrown" /\ r.exc = exc
               ELSE /\ r.kind = "path"
                    /\ r.path = CASE answer = "empty" -> <<>>
                                  [] answer = "end"   -> << Index(r.e, r.sizes) >>
                                  [] OTHER -> LET s == Index(r.s, r.sizes)
                                                  e == Index(r.e, r.sizes) IN <<e, s, e>>
          /\ done' = TRUE
          /\ PrintT(<<"DONE", t>>)
          /\ UNCHANGED <<t, l>>

Next == Silent \/ Event \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
