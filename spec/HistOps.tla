------------------------------ MODULE HistOps ------------------------------
(***************************************************************************)
(* Histograms of integer-valued data (scaled by a power of two).  Exact    *)
(* bin of v among nb bins over lo..hi: floor((v-lo)*nb/(hi-lo)), the last  *)
(* bin closed.  A sample exactly on an interior edge that the floating     *)
(* point bin width cannot represent may round into the bin below.          *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
Lo(d) == FoldLeft(LAMBDA a, x : IF x < a THEN x ELSE a, d[1], d)
Hi(d) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, d[1], d)
RECURSIVE IsPow2(_)
IsPow2(n) == IF n = 1 THEN TRUE ELSE IF n <= 0 \/ n % 2 = 1 THEN FALSE ELSE IsPow2(n \div 2)
(* the width (hi-lo)/nb is a power of two (times an integer power of two scale), so every quotient is exact *)
RECURSIVE Half(_)
Half(n) == IF n % 2 = 0 /\ n > 0 THEN Half(n \div 2) ELSE n
ExactWidth(w, nb) == Half(w) = Half(nb) \/ (w % nb = 0 /\ IsPow2(w \div nb))
Bin(v, lo, w, nb) == LET b == ((v - lo) * nb) \div w IN IF b >= nb THEN nb - 1 ELSE b
OnEdge(v, lo, w, nb) == v > lo /\ v < lo + w /\ ((v - lo) * nb) % w = 0 /\ ~ExactWidth(w, nb)
Count(s, P(_)) == FoldLeft(LAMBDA a, x : IF P(x) THEN a + 1 ELSE a, 0, s)
(* counts of the samples that are certain, and of those on the lower edge of each bin (1-based bins) *)
Certain(d, lo, w, nb) == [b \in 1..nb |-> Count(d, LAMBDA v : ~OnEdge(v, lo, w, nb) /\ Bin(v, lo, w, nb) = b - 1)]
Edgy(d, lo, w, nb) == [b \in 1..nb |-> Count(d, LAMBDA v : OnEdge(v, lo, w, nb) /\ Bin(v, lo, w, nb) = b - 1)]
(* walking up the bins: carry = how many of this bin's lower-edge samples fell below *)
CountsOk(c, d, lo, w, nb) ==
  LET ce == Certain(d, lo, w, nb)  ed == Edgy(d, lo, w, nb)
      st == FoldLeft(LAMBDA a, b : LET own == ce[b] + ed[b] - a.down       \* samples of bin b that did not fall below
                                       down == c[b] - own IN               \* samples of bin b+1 that fell into b
                                   [ok |-> a.ok /\ down >= 0 /\ down <= (IF b < nb THEN ed[b + 1] ELSE 0), down |-> down],
                     [ok |-> TRUE, down |-> 0], [b \in 1..nb |-> b])
  IN st.ok
(* value of the integer v in fixed point (the recorded edges are scaled back) *)
At(v) == Shl_(Int_(v), FB)
(* i-th of nb+1 evenly spaced edges; nb * edge is compared *)
EdgeOk(e, i, lo, w, nb) ==
  e.b = "" /\ LET want == Add_(Mul_(Int_(nb), At(lo)), Mul_(Int_(i), At(w)))
                  got == Mul_(Int_(nb), Of(e))
                  mag == LAdd(Mul_(Int_(nb), At(lo)).m, Mul_(Int_(nb), At(w)).m)
              IN ~LLess(LAdd(LShr(mag, 21), OfInt(2 * nb)), Sub_(got, want).m)
EdgesOk(es, lo, w, nb) == Len(es) = nb + 1 /\ \A i \in 0..nb : EdgeOk(es[i + 1], i, lo, w, nb)
Total(c) == FoldLeft(LAMBDA a, x : a + x, 0, c)
=============================================================================
