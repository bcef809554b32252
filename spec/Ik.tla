--------------------------------- MODULE Ik ---------------------------------
(***************************************************************************)
(* The protocol of an iterative inverse-kinematics solver: what it keeps,  *)
(* when it stops considering a problem, and when it stops.                 *)
(* What is observed of retry r of problem p at one of its iterates is      *)
(*     obs[p][r] = [pos |-> position error below its tolerance,            *)
(*                  rot |-> rotation error below its tolerance,            *)
(*                  e   |-> size of the error, an integer or a rank]       *)
(* Rules for giving up a problem: << "none" >>; << "all" >>, while every   *)
(* retry may still improve; << "any" >>, while one may; << "ratio", n, d >>*)
(* while more than n/d of them may.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Conv(o) == o.pos /\ o.rot
Nothing == [k |-> -1, pos |-> FALSE, rot |-> FALSE, c |-> FALSE, e |-> 0]
\* keep a converged solution, otherwise the latest iterate k
Keep1(s, o, k) == IF s.c THEN s ELSE [k |-> k, pos |-> o.pos, rot |-> o.rot, c |-> Conv(o), e |-> o.e]
KeepAll(sol, obs, k) == [ p \in DOMAIN obs |-> [ r \in DOMAIN obs[p] |-> Keep1(sol[p][r], obs[p][r], k) ] ]
AnyConv(obs, p) == \E r \in DOMAIN obs[p] : Conv(obs[p][r])
\* problems still considered after the check for convergence
AfterConv(rem, obs, on) == IF on THEN { p \in rem : ~AnyConv(obs, p) } ELSE rem

\* smallest error so far and number of consecutive iterations without improving it; <<>> before the first iteration
Best0(obs) == [ p \in DOMAIN obs |-> [ r \in DOMAIN obs[p] |-> [m |-> obs[p][r].e, c |-> 0] ] ]
Best1(best, obs) == [ p \in DOMAIN obs |-> [ r \in DOMAIN obs[p] |->
                        IF obs[p][r].e < best[p][r].m THEN [m |-> obs[p][r].e, c |-> 0] ELSE [best[p][r] EXCEPT !.c = @ + 1] ] ]
Hopeful(best, p, patience) == { r \in DOMAIN best[p] : best[p][r].c <= patience }
Worth(best, p, rule, patience) ==
  LET h == Cardinality(Hopeful(best, p, patience))  n == Cardinality(DOMAIN best[p])
  IN CASE rule[1] = "none" -> TRUE
       [] rule[1] = "all" -> h = n
       [] rule[1] = "any" -> h > 0
       [] rule[1] = "ratio" -> h * rule[3] > rule[2] * n
AfterStall(rem, best, rule, patience) == { p \in rem : Worth(best, p, rule, patience) }

\* one iteration: the solver state after looking at the iterate, before stepping on
Begin(ps) == [n |-> 0, rem |-> DOMAIN ps, best |-> <<>>, sol |-> [ p \in DOMAIN ps |-> [ r \in 1..ps[p] |-> Nothing ]]]
Look(s, obs, opt) ==
  LET best == IF s.best = <<>> THEN Best0(obs) ELSE Best1(s.best, obs)
      rem == AfterConv(s.rem, obs, opt.any)
  IN [n |-> s.n + 1,
      rem |-> IF s.best = <<>> THEN rem ELSE AfterStall(rem, best, opt.rule, opt.patience),
      best |-> best,
      sol |-> KeepAll(s.sol, obs, s.n)]
\* the iterate after the last step is looked at, too
Last1(s, obs, opt) == [s EXCEPT !.rem = AfterConv(@, obs, opt.any), !.sol = KeepAll(@, obs, s.n)]
More(s, opt) == s.rem # {} /\ s.n < opt.max
=============================================================================
