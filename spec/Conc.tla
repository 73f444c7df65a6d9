--------------------------------- MODULE Conc ---------------------------------
(***************************************************************************)
(* Threads with objects of their own.  The only thing they share is the      *)
(* support-vector model loader, guarded by a lock.                           *)
(*                                                                          *)
(* A thread's program is a sequence of operations; a load enters the loader  *)
(* (waiting while another thread is inside), and leaves it whether or not it *)
(* succeeds.  Each step of a behaviour is one thread going on to its next    *)
(* stop: before an operation, or inside the loader.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nobody == -1

(* A log of entries and departures is one of the lock's behaviours.          *)
RECURSIVE LogOk(_, _, _)
LogOk(log, i, holder) ==
  IF i > Len(log) THEN holder = Nobody
  ELSE IF log[i].e = "enter" THEN holder = Nobody /\ LogOk(log, i + 1, log[i].t)
  ELSE log[i].t = holder /\ LogOk(log, i + 1, Nobody)
==============================================================================
