------------------------------ MODULE MC_C16 ------------------------------
(* Tilings and halo exchange as a distributed algorithm.  A field is split    *)
(* into tiles; neighbours exchange halos one axis at a time, in any order;    *)
(* each tile then computes alone and the tiles are joined.  Whatever the      *)
(* order, every halo must show the periodic domain, and the joined result     *)
(* must be that of the whole domain, for every layout and padding.            *)
EXTENDS Conv
CONSTANTS Ns, MaxPad, Ker
N43 == <<4, 3>>
N222 == <<2, 2, 2>>
N6 == <<4, 4>>
K23 == <<2, 3>>
K212 == <<2, 1, 2>>
VARIABLES lay, pad, done, tiles, x, phase

ND == Len(Ns)
Divs(n) == {k \in 1..n : n % k = 0}
Layouts == {L \in [1..ND -> 1..4] : \A d \in 1..ND : L[d] \in Divs(Ns[d])}
Field == Mk(Ns \o <<1>>, LAMBDA i : 1 + Rav(SubSeq(i, 1, ND), Ns))      \* every cell tagged
Pads == [1..ND -> (0..MaxPad) \X (0..MaxPad)]

Init == /\ x = Field
        /\ lay \in Layouts
        /\ pad \in Pads
        /\ HaloAdmissible(Ns, lay, pad)
        /\ done = {}
        /\ tiles = ToBatch(x, lay)
        /\ phase = "exchange"

Exchange(d) == /\ phase = "exchange" /\ d \notin done
               /\ tiles' = HaloAxis(tiles, lay, d, pad[d])
               /\ done' = done \cup {d}
               /\ phase' = IF done' = 1..ND THEN "compute" ELSE "exchange"
               /\ UNCHANGED <<lay, pad, x>>

\* a local sum over the window each tile can see
Window(t) == LET os == [d \in 1..ND |-> t.s[d + 1] - pad[d][1] - pad[d][2]]
                 ks == Tuples([d \in 1..ND |-> pad[d][1] + pad[d][2] + 1])
             IN  Mk(<<t.s[1]>> \o os \o <<1>>, LAMBDA i :
                   SumS([q \in 1..Len(ks) |-> q * At(t, <<i[1]>> \o [d \in 1..ND |-> i[d + 1] + ks[q][d]] \o <<0>>)]))
WindowWhole == LET ks == Tuples([d \in 1..ND |-> pad[d][1] + pad[d][2] + 1])
               IN  Mk(x.s, LAMBDA i : SumS([q \in 1..Len(ks) |->
                     q * At(x, [d \in 1..ND |-> (i[d] + ks[q][d] - pad[d][1]) % Ns[d]] \o <<0>>)]))
Compute == /\ phase = "compute" /\ phase' = "join"
           /\ tiles' = Window(tiles)
           /\ UNCHANGED <<lay, pad, done, x>>
Join == /\ phase = "join" /\ phase' = "end"
        /\ tiles' = ToSpace(tiles, lay)
        /\ UNCHANGED <<lay, pad, done, x>>
Next == (\E d \in 1..ND : Exchange(d)) \/ Compute \/ Join
Spec == Init /\ [][Next]_<<lay, pad, done, tiles, x, phase>>

HaloRight == phase = "compute" => EqA(tiles, HaloWhole(ToBatch(x, lay), lay, pad))
JoinRight == phase = "end" => EqA(tiles, WindowWhole)
RoundTrip == phase = "exchange" /\ done = {} => EqA(ToSpace(tiles, lay), x)
\* the convolutions of Conv.tla commute with cyclic shifts
W(k) == [s |-> k \o <<1, 1>>, v |-> [q \in 1..Prod(k) |-> q * ONE]]
Equivariant ==
  phase = "exchange" /\ done = {} =>
    \A d \in 1..ND : \A rate \in 1..2 :
      /\ EqA(ConvPeriodic(Roll(x, d, 1), W(Ker), <<5>>, rate, 1), Roll(ConvPeriodic(x, W(Ker), <<5>>, rate, 1), d, 1))
      /\ EqA(ConvTransPeriodic(Roll(x, d, 1), W(Ker), <<5>>, rate), Roll(ConvTransPeriodic(x, W(Ker), <<5>>, rate), d, rate))
=============================================================================
