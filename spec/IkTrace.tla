------------------------------ MODULE IkTrace ------------------------------
(***************************************************************************)
(* Are recorded runs of the solver behaviours of Ik?  A run has what was   *)
(* observed of every iterate (sizes of errors as ranks), the problems      *)
(* still considered at every iteration, and what was returned.  Runs whose *)
(* observations become ambiguous are only recorded up to there.            *)
(***************************************************************************)
EXTENDS Ik, Json, TLC

CONSTANT File
Runs == JsonDeserialize(File)

VARIABLES run, i, s, bad
vars == << run, i, s, bad >>
R == Runs[run]
SetOf(bools) == { p \in DOMAIN bools : bools[p] }
Init == /\ run \in 1..Len(Runs) /\ i = 0 /\ bad = ""
        /\ s = Begin([ p \in 1..Runs[run].opt.np |-> Runs[run].opt.nr ])
Iterate ==
  /\ bad = "" /\ i >= 0 /\ i < R.upto
  /\ s' = Look(s, R.obs[i + 1], R.opt)
  /\ bad' = IF ~More(s, R.opt) THEN "iterates further"
            ELSE IF s'.rem # SetOf(R.rems[i + 1]) THEN "considers other problems" ELSE ""
  /\ i' = i + 1 /\ UNCHANGED run
Verdict ==
  IF bad # "" THEN bad
  ELSE IF ~R.full THEN "ok"
  ELSE LET z == Last1(s, R.obs[i + 1], R.opt)
       IN IF More(s, R.opt) THEN "stops too early"
          ELSE IF z.n # R.iters THEN "reports another number of iterations"
          ELSE IF z.rem # SetOf(R.rem) THEN "ends with other problems"
          ELSE IF \E p \in 1..R.opt.np, r \in 1..R.opt.nr :
                    LET w == z.sol[p][r]  g == R.sol[p][r]
                    IN w.k \notin { g.m[j] : j \in DOMAIN g.m } \/ w.c # g.c \/ w.pos # g.pos \/ w.rot # g.rot
               THEN "returns something else" ELSE "ok"
Judge == /\ ~(bad = "" /\ i # R.upto) /\ i >= 0   \* (TLC would take a disjunction for two actions)
         /\ PrintT("@@" \o ToJson([run |-> run, at |-> i, verdict |-> Verdict, sol |-> s.sol, rem |-> [ p \in 1..R.opt.np |-> p \in s.rem ]]))
         /\ i' = -1 /\ UNCHANGED << run, s, bad >>
Next == Iterate \/ Judge
Spec == Init /\ [][Next]_vars
TypeOK == s.n >= 0
=============================================================================
