------------------------------ MODULE MC_C03 ------------------------------
(* A register machine over fields: load a field, combine registers, average  *)
(* locations.  Every register remembers where its data came from; whatever    *)
(* program is run, a register never mixes locations or grids, refused         *)
(* combinations leave no trace, and values are element-wise.  Also the        *)
(* coherence of grids, axes and frequencies for every small grid.             *)
EXTENDS Grids, FiniteSets
CONSTANTS MaxRegs, Vals
VARIABLES regs, refused, last
G1 == [n |-> <<2>>, h |-> <<ONE>>, r |-> <<ONE>>, lo |-> <<0>>, hi |-> <<2 * ONE>>]
G2 == [n |-> <<2>>, h |-> <<HALF>>, r |-> <<2 * ONE>>, lo |-> <<0>>, hi |-> <<ONE>>]
Tags == {[o |-> <<2>>, g |-> G1], [o |-> <<4>>, g |-> G1], [o |-> <<2>>, g |-> G2]}
Leaf(t, v) == [o |-> t.o, g |-> t.g, s |-> <<2>>, v |-> v, src |-> {t}, at |-> <<{v[1]}, {v[2]}>>]
Ops == {"add", "sub", "mul", "max", "min"}
Init == regs = <<>> /\ refused = 0 /\ last = "none"
Load == \E t \in Tags, x \in Vals, y \in Vals : regs' = Append(regs, Leaf(t, <<x * ONE, y * ONE>>)) /\ last' = "load" /\ UNCHANGED refused
\* element-wise: what position i holds depends only on what the operands hold at i
Combine == \E a, b \in 1..Len(regs), op \in Ops :
   IF SameTag(regs[a], regs[b])
   THEN /\ regs' = Append(regs, [o |-> regs[a].o, g |-> regs[a].g, s |-> regs[a].s, v |-> Map2(regs[a], regs[b], LAMBDA x, y : Bin(op, x, y)).v,
                                 src |-> regs[a].src \cup regs[b].src, at |-> [i \in 1..2 |-> regs[a].at[i] \cup regs[b].at[i]]])
        /\ last' = op /\ UNCHANGED refused
   ELSE refused' = refused + 1 /\ last' = "refused" /\ UNCHANGED regs
Next == Len(regs) < MaxRegs /\ refused < 2 /\ (IF Len(regs) < 2 THEN Load ELSE (Load \/ Combine))
Spec == Init /\ [][Next]_<<regs, refused, last>>
Provenance == \A k \in 1..Len(regs) : Cardinality(regs[k].src) = 1 /\ regs[k].src = {[o |-> regs[k].o, g |-> regs[k].g]}
\* a value is zero when everything it came from is zero (all the operators are linear or bounded by their arguments)
ElementWise == \A k \in 1..Len(regs) : \A i \in 1..2 : (regs[k].at[i] = {0} => regs[k].v[i] = 0)
Commute == \A a, b \in 1..Len(regs) : \A op \in {"add", "mul", "max", "min"} : \A i \in 1..2 :
   Bin(op, regs[a].v[i], regs[b].v[i]) = Bin(op, regs[b].v[i], regs[a].v[i])
NegSub == \A a, b \in 1..Len(regs) : \A i \in 1..2 :
   /\ Bin("sub", regs[a].v[i], regs[b].v[i]) = Bin("add", regs[a].v[i], Un("neg", regs[b].v[i]))
   /\ Bin("max", regs[a].v[i], regs[b].v[i]) = Un("neg", Bin("min", Un("neg", regs[a].v[i]), Un("neg", regs[b].v[i])))
   /\ Un("abs", regs[a].v[i]) = Bin("max", regs[a].v[i], Un("neg", regs[a].v[i]))
\* a mean of locations is the location when they agree, whatever their number and order
Means == \A o \in {<<0>>, <<2>>, <<4>>} : MeanLoc(<<o>>) = o /\ MeanLoc(<<o, o, o>>) = o
   /\ \A p \in {<<0>>, <<2>>, <<4>>} : MeanLoc(<<o, p>>) = MeanLoc(<<p, o>>) /\ MeanLoc(<<o, p>>)[1] = (o[1] + p[1]) \div 2
\* grids given by step or by domain
GridOf(n, h, lo) == [n |-> <<n>>, h |-> <<h>>, r |-> <<FDiv(ONE, h)>>, lo |-> <<lo>>, hi |-> <<lo + n * h>>]
GridLaws == regs = <<>> => \A n \in 1..8 : \A h \in {HALF, ONE, 3 * HALF} : \A lo \in {-ONE, 0, HALF} : LET g == GridOf(n, h, lo) IN
  /\ Coherent(g, 0)
  /\ Coord(g, 1, 0, 0) = g.lo[1] /\ Coord(g, 1, 4, n - 1) = g.hi[1]
  /\ \A j \in 0..(n - 1) : 2 * Coord(g, 1, 2, j) = Coord(g, 1, 0, j) + Coord(g, 1, 4, j) /\ Coord(g, 1, 4, j) = Coord(g, 1, 0, j + 1)
  /\ {Freq(n, j) % n : j \in 0..(n - 1)} = 0..(n - 1)                       \* every residue once
  /\ (\A j \in 0..(n - 1) : 2 * Freq(n, j) < n /\ 2 * Freq(n, j) >= -n)
  /\ {RFreq(n, j) : j \in 0..(RLen(n) - 1)} = {k \in 0..n : 2 * k <= n}     \* and up to sign in the half transform
=============================================================================
