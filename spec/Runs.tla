-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* What a run of an optimizer object may depend on: its settings, the       *)
(* problem, the initial point and the seed -- and, only if the caller asks  *)
(* for the previous line searcher, the chain of runs that searcher has      *)
(* been through.  Nothing else is carried from run to run.                  *)
(*                                                                         *)
(* req = [prob, start, seed]; a chain is the sequence of requests the       *)
(* current line searcher of an object has served.                           *)
(***************************************************************************)
EXTENDS Sequences
Chain(old, reuse) == IF reuse THEN old ELSE <<>>
After(old, reuse, req) == Append(Chain(old, reuse), req)
=============================================================================
