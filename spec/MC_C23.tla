------------------------------ MODULE MC_C23 ------------------------------
(* A model that keeps a trajectory of its decoded states.  Encoding the       *)
(* trajectory gives back the state, channels split back into the fields they  *)
(* were stacked from, time may sit on any axis, fluxes conserve, and the      *)
(* vorticity of a flow gives the flow back.                                  *)
EXTENDS Plumb
CONSTANTS Shape, Amps, MaxSteps
VARIABLES w, traj, n

ND == Len(Shape)
N2 == <<2>>
N3 == <<3>>
N22 == <<2, 2>>
N32 == <<3, 2>>
Tern == {-1, 0, 1}
Bit == {0, 1}
HF == HALF
G == [n |-> Shape, h |-> [d \in 1..ND |-> ONE], r |-> [d \in 1..ND |-> ONE], lo |-> [d \in 1..ND |-> 0], hi |-> [d \in 1..ND |-> ONE * Shape[d]]]
Comp(c, v) == FieldOf([s |-> Shape, v |-> v], FacesOf(ND)[c], G, Periodic(ND))
Size == Prod(Shape)
Starts == IF ND = 1 THEN {<<Comp(1, [k \in 1..Size |-> a[k] * HALF])>> : a \in [1..Size -> Amps]}
          ELSE {<<Comp(1, [k \in 1..Size |-> a[k] * HALF]), Comp(2, [k \in 1..Size |-> b[k] * HALF])>> : a, b \in [1..Size -> Amps]}
AsArr(f) == [s |-> f.s, v |-> f.v]
OneFrame(f) == [s |-> <<1>> \o f.s, v |-> f.v]
Longer(t, f) == [s |-> [t.s EXCEPT ![1] = @ + 1], v |-> t.v \o f.v]
\* networks: every way of sending channels to channels, some with a sign, and a shift
Nets == [1..ND -> 1..ND]
Net(p, b) == LET M == [i \in 1..ND |-> [j \in 1..ND |-> IF p[j] = i THEN (IF j = 1 THEN ONE ELSE -ONE) ELSE 0]] IN <<M, [j \in 1..ND |-> b]>>

Init == /\ w \in Starts /\ n = 0 /\ traj = [c \in 1..ND |-> OneFrame(w[c])]
Advance(p, b) ==
  /\ n < MaxSteps /\ n' = n + 1
  /\ LET y == Mixed(Stacked(w), Net(p, b)[1], Net(p, b)[2])
         z == SplitTo(y, FacesOf(ND), FacesOf(ND), G, [c \in 1..ND |-> Periodic(ND)])
     IN  /\ w' = z /\ traj' = TLCEval([c \in 1..ND |-> Longer(traj[c], z[c])])
Next == \E p \in Nets : \E b \in {0, HALF} : Advance(p, b)
Spec == Init /\ [][Next]_<<w, traj, n>>

Encoded == \A c \in 1..ND : FieldOf(LastFrame(traj[c], 1), FacesOf(ND)[c], G, Periodic(ND)) = Comp(c, w[c].v)
Frames == \A c \in 1..ND : \A m \in 1..(n + 1) :
   LET L == LastFrames(traj[c], 1, m) IN
     /\ L.s = Append(Shape, m) /\ Channel(L, m) = AsArr(w[c])
     /\ \A k \in 1..m : Channel(L, k) = Frame(traj[c], 1, n + k - m)
     \* moving time to another axis first changes nothing
     /\ LastFrames(LastFrames(traj[c], 1, n + 1), ND + 1, m) = L
SplitStack == LET x == Stacked(w) IN
   /\ \A c \in 1..ND : Channel(x, c) = AsArr(w[c])
   /\ JoinChannels([c \in 1..ND |-> LastFrames(traj[c], 1, 1)]) = x
NeighbourLaw == LET x == Stacked(w)  y == Neighbours(x, 1)  m == Channels(y) IN
   /\ m = ND * (1 + 2 * ND)
   /\ \A c \in 1..ND : Channel(y, m - ND + c) = AsArr(w[c])
   /\ \A q \in 1..m : SumS(Channel(y, q).v) = SumS(w[((q - 1) % ND) + 1].v)
   /\ \A d \in 1..ND : \A c \in 1..ND : Channel(y, (d - 1) * ND + c) = AsArr(Sh(w[c], d, 1)) /\ Channel(y, ND * ND + (d - 1) * ND + c) = AsArr(Sh(w[c], d, -1))
\* fluxes made of the state in any arrangement push without creating momentum
Fluxes == \A p \in Nets : LET x == Stacked(w)
      M == [i \in 1..ND |-> [j \in 1..(ND * ND) |-> IF p[((j - 1) % ND) + 1] = i THEN (IF j % 2 = 0 THEN ONE ELSE -ONE) ELSE 0]]
      f == FluxPush(Mixed(x, M, [j \in 1..(ND * ND) |-> HALF]), G)
   IN \A c \in 1..ND : f[c].o = FacesOf(ND)[c] /\ f[c].s = Shape /\ SumS(f[c].v) = 0
\* a scalar viscosity is the same for both orders of a pair, and a constant stays constant
Viscous == LET M == [i \in 1..ND |-> <<HALF>>]  N == ScalarVisc(w, w, M, <<ONE>>, HALF)
               K == ScalarVisc(w, w, [i \in 1..ND |-> <<0>>], <<ONE>>, HALF) IN
   \A i, j \in 1..ND : /\ NearA(N[i][j], N[j][i], 0) /\ \A k \in 1..Size : K[i][j].v[k] = HALF
\* moving to the centre and back to the same place averages, and keeps the sum
Centred == \A c \in 1..ND : LET a == Linear(w[c], CentreOf(ND)) IN
   SumS(a.v) = SumS(w[c].v) /\ a.o = CentreOf(ND)
=============================================================================
