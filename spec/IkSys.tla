-------------------------------- MODULE IkSys --------------------------------
(***************************************************************************)
(* Runs of the solver whose errors are up to the environment: at every     *)
(* step each retry's error gets better, worse, stays, or converges.  The   *)
(* replay harness makes the real solver's errors follow the run.           *)
(***************************************************************************)
EXTENDS Ik, Choice, Json, TLC

CONSTANTS MaxProblems, MaxRetries, MaxIter, Rules

VARIABLES rs, phase, opt, tol, s, errs, rems, left
vars == << rs, phase, opt, tol, s, errs, rems, left >>

\* an error is below a tolerance: never, always, or up to 50 or 100
Obs(e) == [pos |-> e <= tol[1], rot |-> e <= tol[2], e |-> e]
ObsAll(es) == [ p \in DOMAIN es |-> [ r \in DOMAIN es[p] |-> Obs(es[p][r]) ] ]
Never == -1
Always == 100000
Tols == << <<50, Always>>, <<Always, 50>>, <<50, 100>>, <<100, 50>>, <<50, Never>>, <<Never, 50>> >>

Moves == << "down", "down", "up", "back", "stay", "stay", "conv", "near", "mid" >>
\* the errors of a retry so far are h (a sequence, latest last); k is the number of the coming iterate
Minimum(h) == CHOOSE m \in Range(h) : \A x \in Range(h) : m <= x
Maximum(h) == CHOOSE m \in Range(h) : \A x \in Range(h) : m >= x
Mid(k) == 90 - k
MoveTo(m, h, k) ==
  LET lo == Minimum(h)  hi == Maximum(h) IN
  CASE m = "stay" -> h[Len(h)]
    [] m = "up" -> hi + 10
    [] m = "back" -> lo + k
    [] m = "mid" -> Mid(k)
    [] m = "conv" -> IF lo > 50 THEN 30 ELSE lo - 1
    [] m = "near" -> IF lo > 50 THEN 30 ELSE 32 + k
    [] m = "down" -> IF lo - 10 > 100 THEN lo - 10 ELSE IF lo > 50 THEN Mid(k) ELSE hi + 10
Hist(p, r) == [ i \in 1..Len(errs) |-> errs[i][p][r] ]

Patience == IF Exhaustive THEN << 0, 1 >> ELSE << 0, 0, 1, 2, 3 >>
Firsts == IF Exhaustive THEN << 200 >> ELSE << 200, 203, 180, 205, 95, 31 >>
Init ==
  /\ rs \in RsInit /\ phase = "run" /\ left = 0 /\ rems = <<>>
  /\ \E any \in Either(BOOLEAN, HN(rs, 1, 2) = 0), rule \in Pick(Rules, rs, 2), pat \in Pick(Patience, rs, 3),
        max \in Either({ MaxIter }, IF Chance(10, rs, 5) THEN HN(rs, 4, 2) ELSE 1 + HN(rs, 4, MaxIter)),
        np \in Either({ MaxProblems }, 1 + HN(rs, 6, MaxProblems)), nr \in Either({ MaxRetries }, 1 + HN(rs, 7, MaxRetries)), t \in Pick(Tols, rs, 8),
        same \in Either({ TRUE }, HN(rs, 9, 3) = 0) :
       /\ opt = [any |-> any, rule |-> rule, patience |-> pat, max |-> max, np |-> np, nr |-> nr, same |-> same]
       /\ tol = t
       /\ s = Begin([ p \in 1..np |-> nr ])
       /\ errs = << [ p \in 1..np |-> [ r \in 1..nr |-> HPick(Firsts, rs, 100 + (IF same THEN 0 ELSE 50 * p) + r) ] ] >>
Latest == errs[Len(errs)]
Assign == [ p \in 1..opt.np |-> [ r \in 1..opt.nr |-> HPick(Moves, rs, 200 + 50 * p + r) ] ]
Assigns == IF Exhaustive THEN [ 1..opt.np -> [ 1..opt.nr -> Range(Moves) ] ] ELSE { Assign }
\* look at the iterate, then take a step
Iterate ==
  /\ phase = "run" /\ More(s, opt)
  /\ s' = Look(s, ObsAll(Latest), opt)
  /\ rems' = Append(rems, s'.rem)
  /\ \E m \in Assigns :
       errs' = Append(errs, [ p \in 1..opt.np |-> [ r \in 1..opt.nr |-> MoveTo(m[p][r], Hist(p, r), Len(errs)) ] ])
  /\ rs' = RsNext(rs) /\ UNCHANGED << phase, opt, tol, left >>
Finish ==
  /\ phase = "run" /\ ~More(s, opt) /\ phase' = "done"
  /\ s' = Last1(s, ObsAll(Latest), opt)
  /\ IF Exhaustive THEN TRUE
     ELSE PrintT("@@" \o ToJson([opt |-> opt, tol |-> tol, errs |-> errs,
                                 rems |-> [ i \in 1..Len(rems) |-> [ p \in 1..opt.np |-> p \in rems[i] ] ],
                                 iters |-> s'.n, rem |-> [ p \in 1..opt.np |-> p \in s'.rem ], sol |-> s'.sol,
                                 pick |-> [ i \in 1..8 |-> HN(rs, 900 + i, 1000) ]]))
  /\ UNCHANGED << rs, opt, tol, errs, rems, left >>
Next == Iterate \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* stated over the history of errors, not over the solver's counters *)
Done == phase = "done"
E(p, r, i) == errs[i + 1][p][r]          \* error of iterate i
Cv(p, r, i) == Conv(Obs(E(p, r, i)))
Looked == IF Done THEN s.n ELSE s.n - 1  \* last iterate looked at
TypeOK == s.n \in 0..opt.max /\ s.rem \subseteq 1..opt.np
\* what is kept is the first converged iterate or else the latest, and is reported truthfully
KeptOK == Looked >= 0 => \A p \in 1..opt.np, r \in 1..opt.nr :
  LET k == s.sol[p][r].k  cs == { i \in 0..Looked : Cv(p, r, i) }
  IN /\ IF cs = {} THEN k = Looked ELSE k \in cs /\ \A i \in cs : k <= i
     /\ s.sol[p][r].c = (cs # {}) /\ s.sol[p][r].c = (s.sol[p][r].pos /\ s.sol[p][r].rot)
     /\ s.sol[p][r].e = E(p, r, k) /\ s.sol[p][r].pos = (E(p, r, k) <= tol[1]) /\ s.sol[p][r].rot = (E(p, r, k) <= tol[2])
\* the retries that at iteration i had not bettered their best for more than `patience` iterations
Stuck(p, i) == { r \in 1..opt.nr : i > opt.patience /\ \A j \in (i - opt.patience)..i : \E l \in 0..(j - 1) : E(p, r, l) <= E(p, r, j) }
GivenUp(p, i) == i > 0 /\ LET k == Cardinality(Stuck(p, i)) IN
                 CASE opt.rule[1] = "none" -> FALSE [] opt.rule[1] = "all" -> k > 0 [] opt.rule[1] = "any" -> k = opt.nr
                   [] OTHER -> (opt.nr - k) * opt.rule[3] <= opt.rule[2] * opt.nr
RemOK == \A p \in 1..opt.np :
  p \in s.rem <=> /\ \A i \in 0..(s.n - 1) : ~GivenUp(p, i)
                  /\ opt.any => \A i \in 0..Looked, r \in 1..opt.nr : ~Cv(p, r, i)
\* it stops exactly when nothing is left or at the limit
StopOK == Done => (s.n = opt.max \/ (s.n > 0 /\ rems[s.n] = {}))
GoesOn == \A i \in 1..(s.n - 1) : rems[i] # {}
Safety == TypeOK /\ KeptOK /\ RemOK /\ StopOK /\ GoesOn
Sticky == [][\A p \in 1..opt.np, r \in 1..opt.nr : s.sol[p][r].c => s'.sol[p][r] = s.sol[p][r]]_vars
Shrinks == [][s'.rem \subseteq s.rem]_vars
=============================================================================
