----------------------------- MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The threads of the process: how universes, their pointers and the main  *)
(* thread that waits for them begin and end.                               *)
(*                                                                         *)
(* Each universe has a thread that gives its pointers their turns (or, with*)
(* native threads, joins the threads of its pointers), a binary semaphore  *)
(* that wakes that thread, a mutex and a condition the main thread waits   *)
(* on.  Code that runs with the mutex held and does not wait is one step   *)
(* here.  What a pointer does in a turn is left open: nothing, ending,     *)
(* splitting, quitting its universe or changing universes.                 *)
(*                                                                         *)
(* TLC shows, for every interleaving within the constants: the main thread *)
(* leaves only when no pointer is left (Safe), no pointer is executed by   *)
(* two threads (Alone), the process never gets stuck (deadlock check) and  *)
(* always ends (Ends).  The same statement about the real code's threads,  *)
(* under a scheduler the check controls, is decided by Trace.tla.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS N,        \* universes
          MaxP,     \* pointers
          MaxWork,  \* turns that do something else than ending
          Native,   \* a thread for each pointer
          Kinds     \* what turns may do besides ending: a subset of {"none", "split", "quit", "travel"}

U == 1..N
P == 1..MaxP
VARIABLES q,        \* the pointers of a universe, in the order of their turns
          run,      \* FALSE once the universe was quit
          sem,      \* the semaphore of its thread
          wake,     \* the main thread, waiting for the universe, was notified
          thr,      \* native: the pointers whose threads it has yet to join
          made,     \* pointers made so far
          at,       \* the universe a pointer is in
          home,     \* native: the one whose list it is in
          stop,     \* it has ended
          upc, cur, \* of the universe's thread
          ppc,      \* of the pointer's thread
          mpc, mi, seen, moved, \* of the main thread; handovers it has seen, and handovers so far
          work
vars == <<q, run, sem, wake, thr, made, at, home, stop, upc, cur, ppc, mpc, mi, seen, moved, work>>

Init ==
  /\ q = [u \in U |-> <<u>>] /\ run = [u \in U |-> TRUE] /\ sem = [u \in U |-> 1] /\ wake = [u \in U |-> FALSE]
  /\ thr = [u \in U |-> IF Native THEN <<u>> ELSE << >>]
  /\ made = N /\ at = [p \in P |-> IF p <= N THEN p ELSE 0] /\ home = at /\ stop = [p \in P |-> FALSE]
  /\ upc = [u \in U |-> "while"] /\ cur = [u \in U |-> 0]
  /\ ppc = [p \in P |-> IF p <= N /\ Native THEN "while" ELSE "none"]
  /\ mpc = "snap" /\ mi = 1 /\ seen = 0 /\ moved = 0 /\ work = MaxWork

-----------------------------------------------------------------------------
(* One turn of pointer p, executed in universe u *)
Kill(u) == /\ stop' = [p \in P |-> stop[p] \/ p \in ToSet(q[u])]
           /\ run' = [run EXCEPT ![u] = FALSE]
           /\ sem' = [sem EXCEPT ![u] = 1]
           /\ wake' = [wake EXCEPT ![u] = TRUE]
Effect(p, u, pcs) ==       \* pcs: where the pointers' threads are afterwards
  \/ /\ stop' = [stop EXCEPT ![p] = TRUE] /\ ppc' = pcs /\ UNCHANGED <<run, sem, wake, q, thr, made, at, home, work>>
  \/ /\ work > 0 /\ work' = work - 1
     /\ \/ "none" \in Kinds /\ ppc' = pcs /\ UNCHANGED <<stop, run, sem, wake, q, thr, made, at, home>>
        \/ "quit" \in Kinds /\ Kill(u) /\ ppc' = pcs /\ UNCHANGED <<q, thr, made, at, home>>
        \/ /\ "travel" \in Kinds /\ ppc' = pcs
           /\ \E v \in U \ {u} : at' = [at EXCEPT ![p] = v]
           /\ UNCHANGED <<stop, run, sem, wake, q, thr, made, home>>
        \/ /\ "split" \in Kinds /\ made < MaxP
           /\ LET c == made + 1 IN
              /\ made' = c /\ at' = [at EXCEPT ![c] = u] /\ home' = [home EXCEPT ![c] = u]
              /\ stop' = [stop EXCEPT ![c] = ~ run[u]]
              /\ q' = [q EXCEPT ![u] = Append(@, c)] /\ sem' = [sem EXCEPT ![u] = 1]
              /\ thr' = [thr EXCEPT ![u] = IF Native THEN Append(@, c) ELSE @]
              /\ ppc' = [pcs EXCEPT ![c] = IF Native THEN "while" ELSE @]
              /\ UNCHANGED <<run, wake>>
NoEffect(pcs) == ppc' = pcs /\ UNCHANGED <<stop, run, sem, wake, q, thr, made, at, home, work>>
(* p leaves the list of u for that of the universe it is in *)
HandOver(p, u) ==
  LET v == at[p] IN
  /\ q' = [q EXCEPT ![u] = SelectSeq(@, LAMBDA x : x # p), ![v] = Append(@, p)]
  /\ stop' = [stop EXCEPT ![p] = @ \/ ~ run[v]]
  /\ home' = [home EXCEPT ![p] = v]
  /\ moved' = moved + 1
  /\ sem' = [sem EXCEPT ![v] = 1]
  /\ wake' = [wake EXCEPT ![u] = TRUE]

(* the universe's thread *)
Go(u, pc) == upc' = [upc EXCEPT ![u] = pc]
Uni(u) ==
  \/ /\ upc[u] = "while" /\ Go(u, IF run[u] THEN "acquire" ELSE "end")
     /\ UNCHANGED <<q, run, sem, wake, thr, made, at, home, stop, cur, ppc, mpc, mi, seen, moved, work>>
  \/ /\ upc[u] = "acquire" /\ sem[u] = 1 /\ sem' = [sem EXCEPT ![u] = 0] /\ Go(u, "front")
     /\ UNCHANGED <<q, run, wake, thr, made, at, home, stop, cur, ppc, mpc, mi, seen, moved, work>>
  \/ /\ upc[u] = "front" /\ ~ Native
     /\ IF q[u] = << >> THEN Go(u, "while") /\ UNCHANGED cur ELSE Go(u, "turn") /\ cur' = [cur EXCEPT ![u] = q[u][1]]
     /\ UNCHANGED <<q, run, sem, wake, thr, made, at, home, stop, ppc, mpc, mi, seen, moved, work>>
  \/ /\ upc[u] = "turn" /\ Go(u, "after")
     /\ IF stop[cur[u]] THEN NoEffect(ppc) ELSE Effect(cur[u], u, ppc)
     /\ UNCHANGED <<cur, mpc, mi, seen, moved>>
  \/ /\ upc[u] = "after" /\ Go(u, "front")
     /\ LET p == cur[u] IN
        IF at[p] # u THEN HandOver(p, u)
        ELSE /\ q' = [q EXCEPT ![u] = IF stop[p] THEN Tail(@) ELSE Append(Tail(@), p)]
             /\ wake' = [wake EXCEPT ![u] = @ \/ stop[p]]
             /\ UNCHANGED <<stop, home, moved, sem>>
     /\ UNCHANGED <<run, thr, made, at, cur, ppc, mpc, mi, seen, work>>
  \/ /\ upc[u] = "front" /\ Native
     /\ IF thr[u] = << >> THEN Go(u, "while") /\ UNCHANGED <<cur, thr>>
        ELSE Go(u, "join") /\ cur' = [cur EXCEPT ![u] = thr[u][1]] /\ thr' = [thr EXCEPT ![u] = Tail(@)]
     /\ UNCHANGED <<q, run, sem, wake, made, at, home, stop, ppc, mpc, mi, seen, moved, work>>
  \/ /\ upc[u] = "join" /\ ppc[cur[u]] = "done" /\ Go(u, "front")
     /\ UNCHANGED <<q, run, sem, wake, thr, made, at, home, stop, cur, ppc, mpc, mi, seen, moved, work>>

(* a pointer's own thread *)
Own(p, pc) == [ppc EXCEPT ![p] = pc]
Ptr(p) ==
  \/ /\ ppc[p] = "while" /\ ppc' = Own(p, IF stop[p] THEN "leave" ELSE "turn")
     /\ UNCHANGED <<q, run, sem, wake, thr, made, at, home, stop, upc, cur, mpc, mi, seen, moved, work>>
  \/ /\ ppc[p] = "turn"
     /\ IF stop[p] THEN NoEffect(Own(p, "after")) ELSE Effect(p, at[p], Own(p, "after"))
     /\ UNCHANGED <<upc, cur, mpc, mi, seen, moved>>
  \/ /\ ppc[p] = "after" /\ ppc' = Own(p, "while")
     /\ IF at[p] # home[p] THEN HandOver(p, home[p]) ELSE UNCHANGED <<q, stop, home, moved, sem, wake>>
     /\ UNCHANGED <<run, thr, made, at, upc, cur, mpc, mi, seen, work>>
  \/ /\ ppc[p] = "leave" /\ ppc' = Own(p, "done")
     /\ q' = [q EXCEPT ![home[p]] = SelectSeq(@, LAMBDA x : x # p)]
     /\ wake' = [wake EXCEPT ![home[p]] = TRUE]
     /\ UNCHANGED <<run, sem, thr, made, at, home, stop, upc, cur, mpc, mi, seen, moved, work>>

(* the main thread *)
Over(u) == ~ (run[u] /\ q[u] # << >>)
Main ==
  \/ /\ mpc = "snap" /\ seen' = moved /\ mi' = 1 /\ mpc' = "look"
     /\ UNCHANGED <<q, run, sem, wake, thr, made, at, home, stop, upc, cur, ppc, moved, work>>
  \/ /\ mpc = "look" /\ mi <= N
     /\ IF Over(mi) THEN mi' = mi + 1 /\ UNCHANGED <<mpc, wake>>
        ELSE mpc' = "sleep" /\ wake' = [wake EXCEPT ![mi] = FALSE] /\ UNCHANGED mi
     /\ UNCHANGED <<q, run, sem, thr, made, at, home, stop, upc, cur, ppc, seen, moved, work>>
  \/ /\ mpc = "sleep" /\ wake[mi] /\ mpc' = "look"
     /\ UNCHANGED <<q, run, sem, wake, thr, made, at, home, stop, upc, cur, ppc, mi, seen, moved, work>>
  \/ /\ mpc = "look" /\ mi > N /\ mpc' = (IF moved # seen THEN "snap" ELSE "kill") /\ mi' = 1
     /\ UNCHANGED <<q, run, sem, wake, thr, made, at, home, stop, upc, cur, ppc, seen, moved, work>>
  \/ /\ mpc = "kill" /\ IF mi <= N THEN Kill(mi) /\ mi' = mi + 1 /\ UNCHANGED mpc
                        ELSE mpc' = "join" /\ mi' = 1 /\ UNCHANGED <<stop, run, sem, wake>>
     /\ UNCHANGED <<q, thr, made, at, home, upc, cur, ppc, seen, moved, work>>
  \/ /\ mpc = "join"
     /\ IF mi > N THEN mpc' = "exit" /\ UNCHANGED <<mi, thr>>
        ELSE /\ upc[mi] = "end"
             /\ IF thr[mi] = << >> THEN mi' = mi + 1 /\ UNCHANGED <<mpc, thr>>
                ELSE ppc[thr[mi][1]] = "done" /\ thr' = [thr EXCEPT ![mi] = Tail(@)] /\ UNCHANGED <<mpc, mi>>
     /\ UNCHANGED <<q, run, sem, wake, made, at, home, stop, upc, cur, ppc, seen, moved, work>>
Done == mpc = "exit" /\ UNCHANGED vars

Next == Main \/ (\E u \in U : Uni(u)) \/ (\E p \in P : Ptr(p)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ (\A u \in U : WF_vars(Uni(u))) /\ (\A p \in P : WF_vars(Ptr(p)))

-----------------------------------------------------------------------------
Made == {p \in P : p <= made}
(* when the main thread stops waiting, every pointer has ended, or its     *)
(* universe was quit                                                       *)
Safe == mpc = "kill" /\ mi = 1 => \A p \in Made : stop[p] \/ ~ run[at[p]]
(* no pointer is in two lists, or executed by two threads *)
Alone == /\ \A u, v \in U : u # v => ToSet(q[u]) \cap ToSet(q[v]) = {}
         /\ \A u, v \in U : u # v /\ ~ Native /\ upc[u] \in {"turn", "after"} /\ upc[v] \in {"turn", "after"} => cur[u] # cur[v]
         /\ \A u \in U : Cardinality(ToSet(q[u])) = Len(q[u])
(* nothing runs when the process is gone *)
Quiet == mpc = "exit" => /\ \A u \in U : upc[u] = "end"
                        /\ \A p \in P : ppc[p] \in {"none", "done"}
Ends == <>(mpc = "exit")
=============================================================================
