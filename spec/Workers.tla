------------------------------ MODULE Workers ------------------------------
(***************************************************************************)
(* Workers that compute at the same time.  A product of the library runs in *)
(* stages: each operand is decomposed into a pool of the relinearization    *)
(* key set, the pools are combined in the scratch of the evaluator, and the *)
(* result is written.  The stages of different workers interleave freely.   *)
(* OwnPool, OwnScratch: does every worker have a key set / an evaluator of  *)
(* its own?  With both, every result is what the worker gets alone, under   *)
(* every interleaving (Alone, checked exhaustively); with either of them    *)
(* shared TLC finds an interleaving that breaks it (checked as well: the    *)
(* property speaks of separate workers for a reason).                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS W, NJobs, Vals, OwnPool, OwnScratch

Workers == 1..W
VARIABLES pc, job, a, b, pool, scr, res, done
vars == <<pc, job, a, b, pool, scr, res, done>>
PoolOf(w) == IF OwnPool THEN w ELSE 1
ScrOf(w) == IF OwnScratch THEN w ELSE 1

\* stands for the gadget decomposition and its recombination: injective, so that a mixed-up stage shows
Dec(x) == 10 + x
Mix(x, y) == x * 1000 + y
F(x, y) == Mix(Dec(x), Dec(y))

Init ==
  /\ pc = [w \in Workers |-> "idle"] /\ job = [w \in Workers |-> 0]
  /\ a = [w \in Workers |-> 0] /\ b = [w \in Workers |-> 0]
  /\ pool = [w \in Workers |-> <<0, 0>>] /\ scr = [w \in Workers |-> 0]
  /\ res = [w \in Workers |-> 0] /\ done = [w \in Workers |-> TRUE]

Start(w) == /\ pc[w] = "idle" /\ job[w] < NJobs
            /\ \E x, y \in Vals : a' = [a EXCEPT ![w] = x] /\ b' = [b EXCEPT ![w] = y]
            /\ job' = [job EXCEPT ![w] = @ + 1] /\ done' = [done EXCEPT ![w] = FALSE]
            /\ pc' = [pc EXCEPT ![w] = "left"] /\ UNCHANGED <<pool, scr, res>>
Left(w) == /\ pc[w] = "left" /\ pool' = [pool EXCEPT ![PoolOf(w)][1] = Dec(a[w])]
           /\ pc' = [pc EXCEPT ![w] = "right"] /\ UNCHANGED <<job, a, b, scr, res, done>>
Right(w) == /\ pc[w] = "right" /\ pool' = [pool EXCEPT ![PoolOf(w)][2] = Dec(b[w])]
            /\ pc' = [pc EXCEPT ![w] = "mix"] /\ UNCHANGED <<job, a, b, scr, res, done>>
Combine(w) == /\ pc[w] = "mix" /\ scr' = [scr EXCEPT ![ScrOf(w)] = Mix(pool[PoolOf(w)][1], pool[PoolOf(w)][2])]
              /\ pc' = [pc EXCEPT ![w] = "out"] /\ UNCHANGED <<job, a, b, pool, res, done>>
Write(w) == /\ pc[w] = "out" /\ res' = [res EXCEPT ![w] = scr[ScrOf(w)]] /\ done' = [done EXCEPT ![w] = TRUE]
            /\ pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<job, a, b, pool, scr>>
Next == \E w \in Workers : Start(w) \/ Left(w) \/ Right(w) \/ Combine(w) \/ Write(w)
Spec == Init /\ [][Next]_vars

Alone == \A w \in Workers : done[w] /\ job[w] > 0 => res[w] = F(a[w], b[w])
=============================================================================
