------------------------------- MODULE DlsSys -------------------------------
(***************************************************************************)
(* Exact damped least-squares steps.  Arms of up to three joints along and *)
(* about coordinate axes, at quarter turns, have integer Jacobians J; the  *)
(* pose error of a target is an integer vector, plus a quarter turn (or    *)
(* none) about a coordinate axis.  The step is the solution dq of          *)
(*     (J' W W J + damping) dq = J' W W dx,                                *)
(* solved over the rationals, for the integer part of dx and the part that *)
(* is a multiple of pi/2 separately.                                       *)
(***************************************************************************)
EXTENDS Kin, Choice, Json

VARIABLES rs, phase, tree, opt, starts, targets, out
vars == << rs, phase, tree, opt, starts, targets, out >>

Ax == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<-1,0,0>>, <<0,-1,0>>, <<0,0,-1>> >>
Turns == IF Exhaustive THEN << <<1,0,0>>, <<1,1,0>> >> ELSE << <<1,0,0>>, <<1,1,0>>, <<1,-1,0>>, <<0,1,0>>, <<1,0,1>> >>
Lens(n) == IF Exhaustive THEN {0, 1} ELSE IF n = 3 THEN { -1, 0, 1 } ELSE -2..2
Offset(n, k) == << HN(rs, k, 2 * (IF n = 3 THEN 1 ELSE 2) + 1) - (IF n = 3 THEN 1 ELSE 2), HN(rs, k + 1, 3) - 1, HN(rs, k + 2, 3) - 1 >>
Fr(i, jt, ax, off) == [id |-> i, par |-> i - 1, jt |-> jt, ax |-> ax, lo |-> <<>>, jo |-> << PTrans(off, 1) >>, lim |-> <<>>, vlim |-> <<>>, elim |-> <<>>]
\* base frame, n moving joints, a tool frame
GenArm(n) == [ i \in 1..(n + 2) |-> IF i = 1 THEN Fr(1, "F", <<1,0,0>>, <<0,0,0>>)
                                    ELSE IF i = n + 2 THEN Fr(i, "F", <<1,0,0>>, Offset(n, 20))
                                    ELSE Fr(i, IF Chance(65, rs, 30 + i) THEN "R" ELSE "P", HPick(Ax, rs, 40 + i), Offset(n, 50 + 5 * i)) ]
ExhArm(n) == { [ i \in 1..(n + 2) |-> IF i = 1 THEN Fr(1, "F", <<1,0,0>>, <<0,0,0>>)
                                      ELSE IF i = n + 2 THEN Fr(i, "F", <<1,0,0>>, << x, 0, 1 >>)
                                      ELSE Fr(i, j[i - 1][1], j[i - 1][2], << 1, 0, 0 >>) ] :
                 x \in {0, 1}, j \in [ 1..n -> {"R", "P"} \X { <<0,0,1>>, <<0,1,0>>, <<-1,0,0>> } ] }
N == Len(tree) - 2
Value(f, k) == IF f.jt = "R" THEN HPick(Turns, rs, k) ELSE IF f.jt = "P" THEN << HN(rs, k, 3) - 1, 1 >> ELSE <<>>
GenStart(k) == [ i \in 1..Len(tree) |-> Value(tree[i], k + i) ]
ExhStarts == { [ i \in 1..Len(tree) |-> IF tree[i].jt = "F" THEN <<>> ELSE IF tree[i].jt = "P" THEN <<0,1>> ELSE v[i] ] : v \in [ 1..Len(tree) -> Range(Turns) ] }
End(cfg) == World(tree, cfg)[Len(tree)]
\* quarter turns about coordinate axes and none
Quarter == { <<0,0,0>> } \cup Range(Ax)
QuarterRot(u) == PRot(<< 1, u[1], u[2], u[3] >>)
Moved(w, d, u) == [r |-> MMul(QuarterRot(u).r, w.r), t |-> VAdd(w.t, d), d |-> 1]
Disp(k) == IF N = 3 THEN << HN(rs, k, 3) - 1, HN(rs, k + 1, 3) - 1, HN(rs, k + 2, 3) - 1 >> ELSE << HN(rs, k, 7) - 3, HN(rs, k + 1, 7) - 3, HN(rs, k + 2, 5) - 2 >>

---------------------------------------------------------------------------
Col(w, j) == LET g == GeoColumn(tree, w, j, Len(tree), <<0,0,0>>, 1) IN g.lin \o g.ang
\* columns of the Jacobian (tuples, which TLC evaluates once)
Js(cfg) == LET w == World(tree, cfg) IN IF N = 1 THEN << Col(w, 2) >> ELSE IF N = 2 THEN << Col(w, 2), Col(w, 3) >> ELSE << Col(w, 2), Col(w, 3), Col(w, 4) >>
Wt(i) == IF i <= 3 THEN opt.wp ELSE opt.wr
RECURSIVE WDot(_, _, _)
WDot(a, b, i) == IF i > 6 THEN 0 ELSE Wt(i) * Wt(i) * a[i] * b[i] + WDot(a, b, i + 1)
\* four times the normal matrix; the damping is (l + m |W dx|^2)/4
RECURSIVE Build1(_, _, _, _, _), Build2(_, _, _), Rhs1(_, _, _)
Build1(J, dxx, i, j, acc) == IF j > N THEN acc ELSE Build1(J, dxx, i, j + 1, Append(acc, 4 * WDot(J[i], J[j], 1) + IF i = j THEN opt.l + opt.m * dxx ELSE 0))
Build2(J, dxx, acc) == IF Len(acc) = N THEN acc ELSE Build2(J, dxx, Append(acc, Build1(J, dxx, Len(acc) + 1, 1, <<>>)))
Normal(J, dxx) == Build2(J, dxx, <<>>)
Rhs1(J, dx, acc) == IF Len(acc) = N THEN acc ELSE Rhs1(J, dx, Append(acc, 4 * WDot(J[Len(acc) + 1], dx, 1)))
Rhs(J, dx) == Rhs1(J, dx, <<>>)
DetN(A) == IF N = 1 THEN A[1][1] ELSE IF N = 2 THEN A[1][1] * A[2][2] - A[1][2] * A[2][1]
           ELSE Det(A[1] \o A[2] \o A[3])
Put(A, b, j) == [ i \in 1..N |-> [ k \in 1..N |-> IF k = j THEN b[i] ELSE A[i][k] ] ]
Cramer(A, b) == [ j \in 1..N |-> DetN(Put(A, b, j)) ]
\* the quarter turn taking rotation a to b, if there is one
Rel(b, a) == LET us == { u \in Quarter : MMul(QuarterRot(u).r, a) = b } IN IF us = {} THEN <<>> ELSE << CHOOSE u \in us : TRUE >>
Step(cfg, g) ==
  LET w == End(cfg)  rel == Rel(g.r, w.r)
  IN IF rel = <<>> \/ (rel[1] # <<0,0,0>> /\ opt.m # 0) THEN <<>>
     ELSE LET J == Js(cfg)  d == VSub(g.t, w.t) \o <<0,0,0>>  u == <<0,0,0>> \o rel[1]
              A == Normal(J, WDot(d, d, 1))
          IN << Cramer(A, Rhs(J, d)), Cramer(A, Rhs(J, u)), DetN(A), d, u >>

Init == /\ rs \in RsInit /\ phase = "arm" /\ tree = <<>> /\ starts = <<>> /\ targets = <<>> /\ out = <<>>
        /\ \E wp \in Either({1, 2}, 1 + HN(rs, 1, 2)), wr \in Either({0, 1}, HN(rs, 2, 3)), l \in Either({1, 4}, HPick(<<1, 2, 4, 4, 8, 12>>, rs, 3)),
              m \in Either({0, 1}, HPick(<<0, 0, 0, 1, 2, 4>>, rs, 4)) : opt = [wp |-> wp, wr |-> wr, l |-> l, m |-> m]
Arm == /\ phase = "arm" /\ phase' = "ask"
       /\ \E n \in Either({1, 2}, 1 + HN(rs, 5, 3)) : \E t \in Either(ExhArm(n), GenArm(n)) : tree' = t
       /\ opt' = IF Len(tree') = 5 THEN [opt EXCEPT !.wp = 1, !.wr = 1] ELSE opt
       /\ rs' = RsNext(rs) /\ UNCHANGED << starts, targets, out >>
Ask == /\ phase = "ask" /\ phase' = "done"
       /\ starts' \in Either({ << s >> : s \in ExhStarts }, [ r \in 1..(1 + HN(rs, 1, 4)) |-> GenStart(100 * r) ])
       /\ targets' \in Either({ << Moved(End(starts'[1]), d, u) >> : d \in { <<0,0,0>>, <<1,-2,0>>, <<0,1,3>> }, u \in { <<0,0,0>>, <<0,0,1>> } },
                              [ p \in 1..(1 + HN(rs, 2, 4)) |-> Moved(End(starts'[1 + HN(rs, 600 + p, Len(starts'))]), Disp(700 + 10 * p),
                                   IF opt.m # 0 \/ HN(rs, 800 + p, 2) = 0 THEN <<0,0,0>> ELSE HPick(Ax, rs, 900 + p)) ])
       /\ out' = [ p \in 1..Len(targets') |-> [ r \in 1..Len(starts') |-> Step(starts'[r], targets'[p]) ] ]
       /\ IF Exhaustive THEN TRUE
          ELSE PrintT("@@" \o ToJson([opt |-> opt, n |-> N, joints |-> [ i \in 1..N |-> << tree[i + 1].jt, tree[i + 1].ax, Opt(tree[i + 1].jo).t >> ],
                                      tool |-> Opt(tree[N + 2].jo).t, starts |-> [ r \in 1..Len(starts') |-> SubSeq(starts'[r], 2, N + 1) ],
                                      targets |-> [ p \in 1..Len(targets') |-> Flat(targets'[p]) ], out |-> out']))
       /\ rs' = RsNext(rs) /\ UNCHANGED << tree, opt >>
Next == Arm \/ Ask
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == phase \in { "arm", "ask", "done" }
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
MatVec(A, x) == [ i \in 1..N |-> SumTo([ j \in 1..N |-> A[i][j] * x[j] ], N) ]
\* the step solves the normal equations, whose matrix is positive definite: it is the unique minimiser, and never goes uphill
MinimumOK == phase = "done" =>
  \A p \in DOMAIN out : \A r \in DOMAIN out[p] : out[p][r] # <<>> =>
    LET o == out[p][r]  J == Js(starts[r])  A == Normal(J, WDot(o[4], o[4], 1))
    IN /\ o[3] > 0 /\ A[1][1] > 0 /\ (N > 1 => A[1][1] * A[2][2] > A[1][2] * A[2][1])
       /\ MatVec(A, o[1]) = [ i \in 1..N |-> o[3] * Rhs(J, o[4])[i] ]
       /\ MatVec(A, o[2]) = [ i \in 1..N |-> o[3] * Rhs(J, o[5])[i] ]
       /\ SumTo([ i \in 1..N |-> o[1][i] * Rhs(J, o[4])[i] ], N) >= 0
       /\ (\A i \in 1..6 : o[4][i] = 0) => \A i \in 1..N : o[1][i] = 0
\* the joint's motion moves the end the way its column says: one unit along a prismatic joint
ColumnOK == phase = "done" =>
  \A r \in DOMAIN starts : \A i \in 1..N : tree[i + 1].jt = "P" =>
    LET c == [starts[r] EXCEPT ![i + 1] = << @[1] + 1, 1 >>]
    IN VSub(End(c).t, End(starts[r]).t) = << Js(starts[r])[i][1], Js(starts[r])[i][2], Js(starts[r])[i][3] >>
Safety == TypeOK /\ MinimumOK /\ ColumnOK
=============================================================================
