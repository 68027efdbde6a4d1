------------------------------- MODULE MC_C01 -------------------------------
(* Design check of the boundary model and generator of call histories.      *)
(* State: the field f a caller holds, the original field, and the calls made *)
(* so far.  Every boundary type pair, location and call is enumerated.       *)
EXTENDS Boundary, Json
CONSTANTS MaxLen, N, GenMode
VARIABLES f, f0, hist

TypePairs == { <<"P","P">>, <<"D","D">>, <<"N","N">>, <<"D","N">>, <<"N","D">> }
Locs(t) == IF "N" \in {t[1], t[2]} THEN {<<2, N>>}
           ELSE IF t[1] = "P" THEN {<<0, N>>, <<2, N>>, <<4, N>>}
           ELSE {<<0, N>>, <<2, N>>, <<4, N>>, <<4, N - 1>>}
Datum == << 5 * ONE, -2 * ONE, 3 * ONE, 11 * ONE, -7 * ONE >>

Fields == UNION { UNION { {
   [ s |-> <<lc[2]>>, v |-> SubSeq(Datum, 1, lc[2]), o |-> <<lc[1]>>,
     g |-> [n |-> <<N>>, h |-> <<HALF>>, r |-> <<2 * ONE>>, lo |-> <<0>>, hi |-> <<N * HALF>>],
     bc |-> [t |-> <<t>>, b |-> <<IF t[1] = "P" THEN <<0, 0>> ELSE <<ONE, -4 * ONE>>>>] ] }
   : lc \in Locs(t) } : t \in TypePairs }

Lo(q) == q.o[1]
HiP(q) == q.o[1] + 4 * (q.s[1] - 1)
W == 4 * N
\* ghost cells currently held on each side
GLo(q) == IF Lo(q) >= Lo(f0) THEN 0 ELSE (Lo(f0) - Lo(q)) \div 4
GHi(q) == IF HiP(q) <= HiP(f0) THEN 0 ELSE (HiP(q) - HiP(f0)) \div 4
Cap == IF f0.bc.t[1][1] = "P" THEN N + 1 ELSE IF f0.o[1] % 4 = 0 THEN N - 1 ELSE N

Ops == { [op |-> "pad", w |-> w, mode |-> m] : w \in (-Cap)..Cap, m \in {"extend", "mirror"} }
  \cup { [op |-> "trim", w |-> w, mode |-> "extend"] : w \in (-Cap)..Cap }
  \cup { [op |-> "shift", w |-> w, mode |-> m] : w \in (-Cap)..Cap, m \in {"extend", "mirror"} }

Enabled(o) ==
  CASE o.op = "pad"   -> IF o.w < 0 THEN GLo(f) - o.w <= Cap ELSE GHi(f) + o.w <= Cap
    [] o.op = "trim"  -> IF o.w < 0 THEN -o.w <= GLo(f) ELSE o.w <= GHi(f)
    [] o.op = "shift" -> IF o.w < 0 THEN GLo(f) - o.w <= Cap ELSE GHi(f) + o.w <= Cap

Apply(o) ==
  CASE o.op = "pad"   -> PadAxis(f, 1, o.w, o.mode)
    [] o.op = "trim"  -> TrimAxis(f, 1, o.w)
    [] o.op = "shift" -> ShiftAxis(f, 1, o.w, o.mode)

Init == f0 \in Fields /\ f = f0 /\ hist = << >>
Call(o) == /\ Len(hist) < MaxLen
           /\ (IF hist = << >> THEN TRUE ELSE hist[Len(hist)].op # "shift")
           /\ Enabled(o)
           /\ f' = Apply(o)
           /\ hist' = Append(hist, o)
           /\ UNCHANGED f0
           /\ (GenMode => PrintT("GEN " \o ToJson([f |-> f0, h |-> hist'])))
Next == \E o \in Ops : Call(o)
Spec == Init /\ [][Next]_<<f, f0, hist>>

----
Vals(q) == [p \in {q.o[1] + 4 * j : j \in 0..(q.s[1] - 1)} |-> q.v[(p - q.o[1]) \div 4 + 1]]
TypeOK == Len(f.v) = f.s[1]
\* inside the domain nothing ever changes
Inside(p) == IF f0.bc.t[1][1] = "P" THEN p \in DOMAIN Vals(f0) ELSE p > 0 /\ p < W
InsideUntouched == \A p \in DOMAIN Vals(f) : Inside(p) => Vals(f)[p] = Vals(f0)[p]
\* periodic values repeat with the domain
Wraps == f0.bc.t[1][1] = "P" =>
  \A p, q \in DOMAIN Vals(f) : (p - q) % W = 0 => Vals(f)[p] = Vals(f)[q]
\* the prescribed wall value / gradient is met by ghosts created on that side
WallMet ==
  LET V == Vals(f)  D == DOMAIN V
      t == f0.bc.t[1]  b == f0.bc.b[1]  h == f0.g.h[1]
      created(side) == \E k \in 1..Len(hist) :
          hist[k].op # "trim" /\ (IF side = 1 THEN hist[k].w < 0 ELSE hist[k].w >= 0)
  IN /\ created(1) /\ t[1] = "D" => /\ (0 \in D => V[0] = b[1])
                                    /\ ({-2, 2} \subseteq D => V[-2] + V[2] = 2 * b[1])
     /\ created(2) /\ t[2] = "D" => /\ (W \in D => V[W] = b[2])
                                    /\ ({W - 2, W + 2} \subseteq D => V[W-2] + V[W+2] = 2 * b[2])
     /\ created(1) /\ t[1] = "N" => ({-2, 2} \subseteq D => V[2] - V[-2] = FMul(h, b[1]))
     /\ created(2) /\ t[2] = "N" => ({W-2, W+2} \subseteq D => V[W+2] - V[W-2] = FMul(h, b[2]))
\* extending in two calls equals extending in one
PadTwice == hist = << >> => \A w1 \in 0..2, w2 \in 0..2, m \in {"extend", "mirror"} :
  w1 + w2 <= Cap =>
   /\ PadAxis(PadAxis(f0, 1, w1, m), 1, w2, m) = PadAxis(f0, 1, w1 + w2, m)
   /\ (w1 > 0 /\ w2 > 0) =>
        PadAxis(PadAxis(f0, 1, -w1, m), 1, -w2, m) = PadAxis(f0, 1, -(w1 + w2), m)
   /\ Vals(TrimAxis(PadAxis(f0, 1, w1, m), 1, w1)) =
        [p \in DOMAIN Vals(f0) |-> IF p = W /\ f0.bc.t[1][2] = "D" THEN f0.bc.b[1][2] ELSE Vals(f0)[p]]
   /\ w1 > 0 => Vals(TrimAxis(PadAxis(f0, 1, -w1, m), 1, -w1)) =
        [p \in DOMAIN Vals(f0) |-> IF p = 0 /\ f0.bc.t[1][1] = "D" THEN f0.bc.b[1][1] ELSE Vals(f0)[p]]
\* a shift re-reads extended values at moved positions
ShiftReads == hist = << >> => \A k \in (-2)..2 : Abs(k) <= Cap =>
   LET sh == ShiftAxis(f0, 1, k, "extend")  pd == PadAxis(f0, 1, k, "extend") IN
     /\ sh.s = f0.s /\ sh.o[1] = f0.o[1] + 4 * k
     /\ \A p \in DOMAIN Vals(sh) : Vals(sh)[p] = Vals(pd)[p]
=============================================================================
