------------------------------ MODULE LineSys ------------------------------
(***************************************************************************)
(* Backtracking line search over a batch.  Attempt a of problem p has an   *)
(* error at every step size; size k is the initial one reduced k times.    *)
(* The batch is searched at once: every round evaluates all attempts at    *)
(* their current sizes and reduces those that do not improve enough.       *)
(* Profiles of errors are arbitrary ("script") or those of a joint that    *)
(* moves along its direction ("line").                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Choice, Json, TLC

CONSTANTS MaxProblems, MaxRetries, MaxTries

VARIABLES rs, phase, opt, base, prof, line, size, open, rounds
vars == << rs, phase, opt, base, prof, line, size, open, rounds >>

S == 4096                   \* errors on a line are in 4096ths
Pow(b, e) == b ^ e
AbsV(x) == IF x < 0 THEN -x ELSE x
\* step size k on the grid: max_lr is opt.m/2, the factor 1/opt.f
Rate(k) == (S * opt.m) \div (2 * Pow(opt.f, k))
\* the error when a joint at a distance t (of the grid) moves by v per unit of step size, in 4096ths
OnLine(t, v) == [ k \in 1..(opt.n + 1) |-> AbsV(S * t - v * Rate(k - 1)) ]
Attempts == 1..(opt.p * opt.r)
Problem(a) == 1 + (a - 1) \div opt.r
Considered(a) == opt.rem[Problem(a)]
\* sufficient decrease is opt.d + 1/2 of a unit: never a tie
Better(a, k) == base[a] - prof[a][k + 1] > opt.d
Chosen(a) == LET ks == { k \in 0..(opt.n - 1) : Better(a, k) } IN IF ks = {} THEN opt.n ELSE CHOOSE k \in ks : \A l \in ks : k <= l

Prof(k) == [ i \in 1..(opt.n + 1) |-> HN(rs, k + i, 100) ]
Init ==
  /\ rs \in RsInit /\ phase = "set" /\ size = <<>> /\ open = {} /\ rounds = 0 /\ base = <<>> /\ prof = <<>> /\ line = <<>>
  /\ \E p \in Either({ MaxProblems }, 1 + HN(rs, 1, MaxProblems)), r \in Either({ MaxRetries }, 1 + HN(rs, 2, MaxRetries)), n \in Either({ MaxTries }, HN(rs, 3, MaxTries + 1)),
        f \in Either({2}, 2 + 2 * HN(rs, 4, 2)), m \in Either({2}, HPick(<<1, 2, 4>>, rs, 5)), d \in Either({0, 2}, HPick(<<0, 0, 1, 10, 30>>, rs, 6)),
        kind \in Either({ "script" }, IF HN(rs, 7, 3) = 0 THEN "line" ELSE "script"), none \in Either({ FALSE }, HN(rs, 8, 4) = 0) :
      \E rem \in Either([ 1..p -> BOOLEAN ], [ i \in 1..p |-> none \/ HN(rs, 20 + i, 4) # 0 ]) :
       opt = [p |-> p, r |-> r, n |-> n, f |-> f, m |-> m, d |-> IF kind = "line" THEN d * 64 ELSE d, kind |-> kind, rem |-> rem, none |-> none]
Set ==
  /\ phase = "set" /\ phase' = "search"
  /\ \/ /\ Exhaustive
        /\ base' \in [ Attempts -> {3} ] /\ prof' \in [ Attempts -> [ 1..(opt.n + 1) -> {0, 2, 3, 4} ] ] /\ line' = <<>>
     \/ /\ ~Exhaustive
        /\ line' = IF opt.kind # "line" THEN <<>> ELSE [ a \in Attempts |-> << HN(rs, 10 * a, 41) - 20, HN(rs, 10 * a + 1, 81) - 40 >> ]
        /\ prof' = [ a \in Attempts |-> IF opt.kind = "line" THEN OnLine(line'[a][1], line'[a][2]) ELSE Prof(100 * a) ]
        /\ base' = [ a \in Attempts |-> IF opt.kind = "line" THEN S * AbsV(line'[a][1]) ELSE IF Chance(50, rs, 3000 + a) THEN 50 ELSE HN(rs, 4000 + a, 120) ]
  /\ size' = [ a \in Attempts |-> 0 ] /\ open' = { a \in Attempts : Considered(a) }
  /\ UNCHANGED << rs, opt, rounds >>
Round ==
  /\ phase = "search" /\ open # {} /\ rounds < opt.n
  /\ size' = [ a \in Attempts |-> IF Better(a, size[a]) THEN size[a] ELSE size[a] + 1 ]
  /\ open' = { a \in open : ~Better(a, size[a]) }
  /\ rounds' = rounds + 1 /\ UNCHANGED << rs, phase, opt, base, prof, line >>
Finish ==
  /\ phase = "search" /\ ~(open # {} /\ rounds < opt.n) /\ phase' = "done"
  /\ IF Exhaustive THEN TRUE
     ELSE PrintT("@@" \o ToJson([opt |-> opt, base |-> base, prof |-> prof, line |-> line, rounds |-> rounds,
                                 chosen |-> [ a \in Attempts |-> IF Considered(a) THEN Chosen(a) ELSE -1 ]]))
  /\ UNCHANGED << rs, opt, base, prof, line, size, open, rounds >>
Next == Set \/ Round \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == phase \in { "set", "search", "done" }
\* the result of every attempt is the one it has alone, whatever the others do
ChosenOK == phase = "done" => \A a \in Attempts : Considered(a) => size[a] = Chosen(a)
\* while searching, sizes only cover what has been tried, and the final size improves or is the last
SoFarOK == phase \in { "search", "done" } => \A a \in Attempts :
             /\ size[a] <= rounds
             /\ \A k \in 0..(size[a] - 1) : ~Better(a, k)
             /\ (a \notin open /\ Considered(a)) => Better(a, size[a])
CostOK == rounds <= opt.n
Safety == TypeOK /\ ChosenOK /\ SoFarOK /\ CostOK
Shrinks == [][phase = "search" => open' \subseteq open /\ \A a \in Attempts : size'[a] >= size[a]]_vars
=============================================================================
