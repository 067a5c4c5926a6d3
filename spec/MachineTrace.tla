---------------------------- MODULE MachineTrace ----------------------------
(***************************************************************************)
(* Validates recorded histories of the real library against the machine.   *)
(* One history per line of the trace file; every event carries the request *)
(* and what was observed after it:                                         *)
(*   out    "ok" / "panic" / "val"                                         *)
(*   nres   number of results (ok)                                         *)
(*   val    value read (val)                                               *)
(*   obs    the registers whose projection (shape, elements, place)        *)
(*          changed: [r, null, sh, v, b, off]                              *)
(*   live   elements constructed and not yet destroyed (-1: not tracked)   *)
(*   bad    destroyed-twice or destroyed-but-visible elements so far       *)
(*   calls, seq   calls of the caller's function; hash of returned values  *)
(* All histories are explored in parallel; a mismatch sets err.            *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, err
vars == <<h, l, st, err>>

Init == /\ h \in 1..Len(H) /\ l = 0 /\ st = InitSt /\ err = ""

ObsAt(e, r) == {i \in DOMAIN e.obs : e.obs[i].r = r}

(* what the harness saw in register r after e *)
Seen(s, e, r) ==
  LET i == ObsAt(e, r)
  IN IF i = {} THEN (IF IsNull(s.regs[r]) THEN [null |-> TRUE] ELSE [null |-> FALSE, t |-> Den(s, r)])
     ELSE LET o == e.obs[CHOOSE j \in i : TRUE]
          IN IF o.null THEN [null |-> TRUE] ELSE [null |-> FALSE, t |-> Ten(o.sh, o.v)]

Expect(s, e, m, r) ==
  LET n == NDest(e, m)
      d == {i \in 1..n : e.d[i] = r}
  IN IF d # {} THEN [null |-> FALSE, t |-> m.res[CHOOSE i \in d : TRUE]]
     ELSE IF IsNull(AfterConsume(s, e)[r]) THEN [null |-> TRUE]
     ELSE [null |-> FALSE, t |-> Den(s, r)]

Same(a, b) == a.null = b.null /\ (a.null \/ (a.t.sh = b.t.sh /\ a.t.v = b.t.v))

PlaceOf(s, e, m) ==
  [i \in 1..NDest(e, m) |->
     LET js == ObsAt(e, e.d[i])
     IN IF js = {} THEN [b |-> s.regs[e.d[i]].b, off |-> s.regs[e.d[i]].off]
        ELSE LET o == e.obs[CHOOSE j \in js : TRUE] IN [b |-> o.b, off |-> o.off]]

Check(s, e) ==
  LET A == Args(s, e)
      sem == Meaning(e, A)
      cp == Has(e, "cpan") /\ e.cpan > 0 /\ e.out = "panic"   \* a panicking Clone of the caller
      m == IF cp THEN Rej ELSE sem
      (* the caller's function or Clone may have panicked midway (also before the operands were found unfit): partial results may leak *)
      interrupted == m.out = "panic" /\ (Sem(e, A).out = "ok" \/ cp \/ (Has(e, "pan") /\ e.pan > 0))
      bad == {r \in Regs : ~ Same(Seen(s, e, r), Expect(s, e, m, r))}
      p == PlaceOf(s, e, m)
      s2 == Effect(s, e, m, p)
      leak == IF e.live < 0 THEN 0 ELSE e.live - LiveCells(s2)
  IN IF e.out # m.out
       THEN [st |-> s, err |-> "outcome: expected " \o m.out \o " got " \o e.out]
     ELSE IF m.out = "val" /\ e.val # m.val
       THEN [st |-> s, err |-> "read: expected " \o ToString(m.val)]
     ELSE IF m.out = "ok" /\ e.nres # Len(m.res)
       THEN [st |-> s, err |-> "number of results: expected " \o ToString(Len(m.res))]
     ELSE IF bad # {}
       THEN [st |-> s, err |-> "register: expected " \o ToString(Expect(s, e, m, CHOOSE r \in bad : TRUE))
                               \o " in register " \o ToString(CHOOSE r \in bad : TRUE)]
     ELSE IF m.out = "ok" /\ Has(e, "calls") /\ e.calls # Calls(e, A)
       THEN [st |-> s, err |-> "calls: expected " \o ToString(Calls(e, A))]
     ELSE IF m.out = "ok" /\ Has(e, "seq") /\ e.op \in OrderedOps /\ e.seq # HFold(0, m.res[1].v)
       THEN [st |-> s, err |-> "call order differs from element order"]
     ELSE IF \E i \in DOMAIN p : ~ Fits(s, e, m.res[i], p[i])
       THEN [st |-> s, err |-> "placement of a result inconsistent with its contents"]
     ELSE IF e.bad # 0
       THEN [st |-> s, err |-> "element destroyed twice, or visible after destruction, or never constructed"]
     ELSE IF e.live >= 0 /\ leak < s.leaked
       THEN [st |-> s, err |-> "elements destroyed too early: live " \o ToString(e.live)
                               \o " expected " \o ToString(LiveCells(s2) + s.leaked)]
     ELSE IF e.live >= 0 /\ ~ interrupted /\ leak # s.leaked
       THEN [st |-> s, err |-> "elements not destroyed: live " \o ToString(e.live)
                               \o " expected " \o ToString(LiveCells(s2) + s.leaked)]
     ELSE [st |-> IF e.live >= 0 THEN [s2 EXCEPT !.leaked = leak] ELSE s2, err |-> ""]

Next == /\ err = "" /\ l < Len(H[h].ev)
        /\ \E c \in {Check(st, H[h].ev[l + 1])} : st' = c.st /\ err' = c.err
        /\ l' = l + 1 /\ h' = h

Conform == err = ""
Inv == InBounds(st) /\ NoGarbage(st)
(* one state per event plus one initial state per history: all consumed *)
Consumed_All == TLCGet("distinct") =
   FoldLeft(LAMBDA acc, x : acc + Len(x.ev) + 1, 0, H)
=============================================================================
