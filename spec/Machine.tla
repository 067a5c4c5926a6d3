------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The tensor machine: registers hold tensor HANDLES, handles are windows  *)
(* over shared BUFFERS.                                                    *)
(*                                                                         *)
(*   st.regs[r]  = Null, or [b, off, sh]: buffer, first cell, shape        *)
(*   st.bufs[b]  = the cells of buffer b (only buffers some register needs)*)
(*   st.leaked   = elements lost by operations interrupted by a panic of   *)
(*                 the caller's own function (the only permitted leak)     *)
(*                                                                         *)
(* A request e names argument registers e.a, destination registers e.d,    *)
(* and which arguments are consumed, e.own (set of positions as list).     *)
(* The effect of a request is fully determined by TensorOps!Meaning, up to *)
(* PLACEMENT: whether a result is a window over an existing buffer or a    *)
(* new buffer is the implementation's choice, constrained by Fits.         *)
(***************************************************************************)
EXTENDS TensorOps

CONSTANT NR                      \* number of registers
Regs == 1..NR
Null == [b |-> 0, off |-> 0, sh |-> <<-1>>]
IsNull(h) == h.b = 0

InitSt == [regs |-> [r \in Regs |-> Null], bufs |-> <<>>, leaked |-> 0]
  \* <<>> is the function with empty domain

DenH(bufs, h) == Ten(h.sh, SubSeq(bufs[h.b], h.off + 1, h.off + Size(h.sh)))
Den(st, r) == DenH(st.bufs, st.regs[r])
Args(st, e) == [i \in 1..Len(e.a) |-> Den(st, e.a[i])]
LiveRegs(st) == {r \in Regs : ~ IsNull(st.regs[r])}

BufsOf(regs) == {regs[r].b : r \in {q \in Regs : ~ IsNull(regs[q])}}
LiveCells(st) == FoldLeft(LAMBDA acc, b : acc + Len(st.bufs[b]), 0, SetToSeq(DOMAIN st.bufs))

Consumed(e) == {e.a[e.own[i]] : i \in DOMAIN e.own}

(* registers after the request's operands were consumed *)
AfterConsume(st, e) ==
  [r \in Regs |-> IF r \in Consumed(e) \/ (e.op = "drop" /\ r \in Range(e.a)) THEN Null ELSE st.regs[r]]

(* number of destination registers filled by m *)
NDest(e, m) == IF m.out = "ok" THEN MinI(Len(e.d), Len(m.res)) ELSE 0

(***************************************************************************)
(* Placement p of results: sequence of [b, off] for the destinations.      *)
(* Fits: a result may lie in an existing buffer if the cells hold exactly  *)
(* the result, or if nobody but the consumed operands can see the buffer   *)
(* (reuse in place); otherwise it is a new buffer starting at cell 0.      *)
(***************************************************************************)
Visible(st, e) == BufsOf(AfterConsume(st, e))
InBuf(st, b, off, t) ==
  /\ b \in DOMAIN st.bufs
  /\ off >= 0 /\ off + Len(t.v) <= Len(st.bufs[b])
Fits(st, e, t, p) ==
  IF p.b \in DOMAIN st.bufs
  THEN /\ InBuf(st, p.b, p.off, t)
       /\ \/ p.b \notin Visible(st, e)
          \/ SubSeq(st.bufs[p.b], p.off + 1, p.off + Len(t.v)) = t.v
  ELSE p.off = 0
Put(bufs, p, t) ==
  IF p.b \in DOMAIN bufs
  THEN [bufs EXCEPT ![p.b] = SubSeq(@, 1, p.off) \o t.v \o SubSeq(@, p.off + Len(t.v) + 1, Len(@))]
  ELSE [b \in DOMAIN bufs \cup {p.b} |-> IF b = p.b THEN t.v ELSE bufs[b]]

(* the successor state for meaning m and placement p (a sequence) *)
Effect(st, e, m, p) ==
  LET n == NDest(e, m)
      base == AfterConsume(st, e)
      dst == {e.d[i] : i \in 1..n}
      at(r) == CHOOSE i \in 1..n : e.d[i] = r
      regs2 == [r \in Regs |-> IF r \in dst
                 THEN [b |-> p[at(r)].b, off |-> p[at(r)].off, sh |-> m.res[at(r)].sh]
                 ELSE base[r]]
      all == FoldLeft(LAMBDA bs, i : Put(bs, p[i], m.res[i]), st.bufs, [i \in 1..n |-> i])
      need == BufsOf(regs2)
  IN [st EXCEPT !.regs = regs2, !.bufs = [b \in need |-> all[b]]]

(***************************************************************************)
(* The canonical placement used when the machine runs by itself: view      *)
(* operations give windows computed by offset arithmetic, everything else  *)
(* gets a new buffer.                                                      *)
(***************************************************************************)
FreshId(st, k) == (IF DOMAIN st.bufs = {} THEN 0 ELSE CHOOSE m \in DOMAIN st.bufs : \A n \in DOMAIN st.bufs : n <= m) + k
ViewOff(h, e) ==
  CASE e.op = "subslice" -> h.off + e.off * Stride(h.sh, 1)
    [] e.op = "subslice_flat" -> h.off + e.off
    [] OTHER -> h.off
Canon(st, e, m) ==
  [i \in 1..NDest(e, m) |->
     IF e.op \in ViewOps
     THEN [b |-> st.regs[e.a[1]].b, off |-> ViewOff(st.regs[e.a[1]], e)]
     ELSE [b |-> FreshId(st, i), off |-> 0]]

Run(st, e) == LET m == Meaning(e, Args(st, e)) IN Effect(st, e, m, Canon(st, e, m))

(***************************************************************************)
(* Invariants of every reachable machine state                             *)
(***************************************************************************)
InBounds(st) == \A r \in LiveRegs(st) :
   LET h == st.regs[r] IN /\ h.b \in DOMAIN st.bufs
                          /\ h.off >= 0
                          /\ h.off + Size(h.sh) <= Len(st.bufs[h.b])
                          /\ Len(h.sh) <= MaxRank
NoGarbage(st) == DOMAIN st.bufs = BufsOf(st.regs)
(* a request changes at most its destinations and consumed operands *)
OnlyTouches(st, st2, e) ==
  \A r \in LiveRegs(st) :
     (r \notin Range(e.d) /\ r \notin Consumed(e) /\ ~ (e.op = "drop" /\ r \in Range(e.a)))
        => /\ ~ IsNull(st2.regs[r]) /\ Den(st2, r) = Den(st, r)
(* results denote what the value semantics says *)
Denotes(st2, e, m) == \A i \in 1..NDest(e, m) : Den(st2, e.d[i]) = m.res[i]
=============================================================================
