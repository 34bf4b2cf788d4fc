----------------------------- MODULE RunsTrace -----------------------------
(***************************************************************************)
(* Recorded sequences of runs.  T = [kind, name, runs];                      *)
(* runs[j] = [obj, req, reuse, chain, out, fresh, late, point, problem,      *)
(*            searcher, settings, exc]                                      *)
(*   fresh  the outcome of the same run by a fresh object, after the chain   *)
(*   late   the outcome again after all runs of the sequence                *)
(*   point, problem, searcher, settings: left as they were                  *)
(* An outcome is [iters, evals, why, nums]: the counts, the reason and the   *)
(* numbers met on the way (costs, point, gradient norms, log).               *)
(***************************************************************************)
EXTENDS Runs, LinAlg, Verdict
Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, j, chain, bad
vars == <<tid, j, chain, bad>>
T == Traces[tid]
Same(a, b) == /\ a.iters = b.iters /\ a.evals = b.evals /\ a.why = b.why /\ Len(a.nums) = Len(b.nums)
              /\ \A i \in DOMAIN a.nums : LET u == a.nums[i] v == b.nums[i] IN
                   SameNum(u, v) \/ NLe(NAbs(NSub(u, v)), NMul(NDec("1e-7"), NAdd(NDec("1e-3"), NAbs(v))))
Init == tid \in 1..Len(Traces) /\ j = 1 /\ chain = [o \in {1, 2} |-> <<>>] /\ bad = {}
Run == /\ j <= Len(T.runs)
       /\ LET r == T.runs[j] IN
          /\ bad' = bad \cup (IF r.exc # "" THEN {<<"exception: " \o r.exc, j>>}
               ELSE IF r.chain # Chain(chain[r.obj], r.reuse) THEN {<<"harness: wrong chain", j>>}
               ELSE C("C10", "outcome differs from that of a fresh optimizer", j, Same(r.out, r.fresh))
                 \cup C("C10", "an earlier result changed", j, Same(r.late, r.out))
                 \cup C("C10", "the initial point was modified", j, r.point)
                 \cup C("C10", "the problem was modified", j, r.problem)
                 \cup C("C10", "the line searcher passed by the caller was modified", j, r.searcher)
                 \cup C("C10", "a setting was modified", j, r.settings))
          /\ chain' = [chain EXCEPT ![r.obj] = After(@, r.reuse, r.req)]
       /\ j' = j + 1 /\ tid' = tid
End == /\ j = Len(T.runs) + 1 /\ NJEmit([tid |-> tid, bad |-> bad]) /\ j' = j + 1 /\ UNCHANGED <<tid, chain, bad>>
Next == Run \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
