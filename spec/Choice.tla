------------------------------- MODULE Choice -------------------------------
(***************************************************************************)
(* One source of truth for exhaustive checking and for generating long     *)
(* behaviours.  Every choice of an action is written                       *)
(*     \E x \in Pick(seq, rs, k)                                           *)
(* With Exhaustive = TRUE it ranges over the whole domain; otherwise it is *)
(* the one element selected by a deterministic hash of the behaviour's     *)
(* random state rs = <<a, b>> and the index k of the choice, so that TLC   *)
(* explores one long behaviour per initial value of rs, reproducibly and   *)
(* with any number of workers.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Exhaustive,   \* BOOLEAN
          Seed,         \* seed of the run
          Behaviours    \* number of generated behaviours

\* hash of rs and k to 0..46300; all products stay below 2^31
H(rs, k) ==
  LET a == (rs[1] * 271 + k * 7919 + 13) % 46337
      b == (a * a + 3 * a + rs[2]) % 46327
      c == (b * 389 + rs[1]) % 46301
  IN (c * c + 7 * c + k) % 46301

HN(rs, k, n) == H(rs, k) % n
HPick(seq, rs, k) == seq[1 + HN(rs, k, Len(seq))]
\* TRUE with probability about p/100
Chance(p, rs, k) == HN(rs, k, 100) < p
Range(seq) == { seq[i] : i \in 1..Len(seq) }

Pick(seq, rs, k) == IF Exhaustive THEN Range(seq) ELSE { HPick(seq, rs, k) }
\* domain for exhaustive exploration and generator expression for long behaviours
Either(exh, gen) == IF Exhaustive THEN exh ELSE { gen }

RsInit == IF Exhaustive THEN { <<0, 0>> }
          ELSE { << (Seed * 7919 + i * 131) % 46337, (Seed * 104 + i) % 46327 >> : i \in 1..Behaviours }
RsNext(rs) == IF Exhaustive THEN rs ELSE << H(rs, 90001), H(rs, 90002) >>
=============================================================================
