-------------------------------- MODULE Conv --------------------------------
(* Convolutions, domain tilings and halo exchange.  Arrays are channel last. *)
EXTENDS Boundary

SpatialDims(x) == Len(x.s) - 1
Chan(x) == x.s[Len(x.s)]
SpatialOf(i) == SubSeq(i, 1, Len(i) - 1)

\* all index tuples below the given extents, in row-major order
Tuples(s) == [k \in 1..Prod(s) |-> Unrav(k - 1, s)]

(* Cross-correlation at an arbitrary reader: Rd(j, c) is the input value at  *)
(* (possibly out of range) spatial index j, channel c.                       *)
Corr(Rd(_, _), base, w, rate, co) ==
  LET nd == Len(w.s) - 2
      ks == TLCEval(Tuples(SubSeq(w.s, 1, nd)))
      cin == w.s[nd + 1]
  IN  SumS([q \in 1..(Len(ks) * cin) |->
        LET k == ks[((q - 1) \div cin) + 1]  ci == (q - 1) % cin
            cf == At(w, k \o <<ci, co>>)
        IN  IF cf = 0 THEN 0
            ELSE FMul(cf, Rd([d \in 1..nd |-> base[d] + rate * k[d]], ci))])

EffKernel(k, rate) == k + (rate - 1) * (k - 1)
CentrePad(k, rate) == LET e == EffKernel(k, rate) IN << e \div 2, e - (e \div 2) - 1 >>

\* valid convolution: output exists where the whole kernel fits
ConvValid(x, w, b, rate, stride) ==
  LET nd == SpatialDims(x)
      os == [d \in 1..nd |-> ((x.s[d] - EffKernel(w.s[d], rate)) \div stride) + 1]
      Rd(j, c) == At(x, j \o <<c>>)
  IN  Mk(os \o <<w.s[nd + 2]>>, LAMBDA i :
        b[i[nd + 1] + 1] + Corr(Rd, [d \in 1..nd |-> stride * i[d]], w, rate, i[nd + 1]))

\* periodic convolution centred on the cell
ConvPeriodic(x, w, b, rate, stride) ==
  LET nd == SpatialDims(x)
      os == [d \in 1..nd |-> ((x.s[d] - 1) \div stride) + 1]
      Rd(j, c) == At(x, [d \in 1..nd |-> j[d] % x.s[d]] \o <<c>>)
  IN  Mk(os \o <<w.s[nd + 2]>>, LAMBDA i :
        b[i[nd + 1] + 1] + Corr(Rd, [d \in 1..nd |-> stride * i[d] - CentrePad(w.s[d], rate)[1]], w, rate, i[nd + 1]))

(* Transposed convolution: input i, scaled to position stride * i, spreads   *)
(* the kernel around it; w is indexed [kernel, out, in].                     *)
ConvTransPeriodic(x, w, b, stride) ==
  LET nd == SpatialDims(x)
      ks == TLCEval(Tuples(SubSeq(w.s, 1, nd)))
      cin == w.s[nd + 2]
      os == [d \in 1..nd |-> x.s[d] * stride]
      src(J, k, d) == J + ((w.s[d] - 1) \div 2) - (w.s[d] - 1 - k)
  IN  Mk(os \o <<w.s[nd + 1]>>, LAMBDA i :
        b[i[nd + 1] + 1] + SumS([q \in 1..(Len(ks) * cin) |->
          LET k == ks[((q - 1) \div cin) + 1]  ci == (q - 1) % cin
          IN  IF \A d \in 1..nd : src(i[d], k[d], d) % stride = 0
              THEN FMul(At(w, k \o <<i[nd + 1], ci>>),
                        At(x, [d \in 1..nd |-> (src(i[d], k[d], d) \div stride) % x.s[d]] \o <<ci>>))
              ELSE 0]))

(* Convolution of a set of variables that mirrors them across their          *)
(* boundaries: fs is a sequence of fields, all convolved jointly.            *)
ConvMirror(fs, w, b, rate) ==
  LET nd == Len(fs[1].s)
      pads == [d \in 1..nd |-> CentrePad(w.s[d], rate)]
      ps == [c \in 1..Len(fs) |-> TLCEval(PadAll(fs[c], pads, "mirror"))]
      Rd(j, c) == At(ps[c + 1], j)
  IN  [c \in 1..w.s[nd + 2] |->
        LET a == Mk(fs[1].s, LAMBDA i : b[c] + Corr(Rd, i, w, rate, c - 1))
        IN  Impose([fs[c] EXCEPT !.v = a.v])]

(* --- tilings -------------------------------------------------------------- *)
TileSize(s, lay) == [d \in 1..Len(lay) |-> s[d] \div lay[d]]
Divides(s, lay) == \A d \in 1..Len(lay) : s[d] % lay[d] = 0

\* [t, local..., c]: tile t in row-major order of the layout
ToBatch(x, lay) ==
  LET ts == TileSize(x.s, lay)  nd == Len(lay)
  IN  Mk(<<Prod(lay)>> \o ts \o <<Chan(x)>>, LAMBDA i :
        LET t == Unrav(i[1], lay)
        IN  At(x, [d \in 1..nd |-> t[d] * ts[d] + i[d + 1]] \o <<i[nd + 2]>>))

ToSpace(x, lay) ==
  LET nd == Len(lay)
      ts == SubSeq(x.s, 2, nd + 1)
  IN  Mk([d \in 1..nd |-> lay[d] * ts[d]] \o <<x.s[nd + 2]>>, LAMBDA i :
        At(x, <<Rav([d \in 1..nd |-> i[d] \div ts[d]], lay)>>
              \o [d \in 1..nd |-> i[d] % ts[d]] \o <<i[nd + 1]>>))

(* Halo exchange, stated on the whole domain: each tile, extended by its     *)
(* padding, shows the periodic domain around it.                             *)
HaloWhole(x, lay, pad) ==
  LET g == ToSpace(x, lay)  nd == Len(lay)
      ts == SubSeq(x.s, 2, nd + 1)
  IN  Mk(<<x.s[1]>> \o [d \in 1..nd |-> ts[d] + pad[d][1] + pad[d][2]] \o <<x.s[nd + 2]>>, LAMBDA i :
        LET t == Unrav(i[1], lay)
        IN  At(g, [d \in 1..nd |-> (t[d] * ts[d] + i[d + 1] - pad[d][1]) % g.s[d]] \o <<i[nd + 2]>>))

(* The exchange as messages between neighbours, one axis at a time: each     *)
(* tile receives the last pad[1] layers of its lower neighbour and the first *)
(* pad[2] layers of its upper neighbour.                                     *)
HaloAxis(x, lay, d, p) ==
  LET m == x.s[d + 1]
      nb(t, e) == Rav([Unrav(t, lay) EXCEPT ![d] = (@ + e) % lay[d]], lay)
  IN  Mk([x.s EXCEPT ![d + 1] = m + p[1] + p[2]], LAMBDA i :
        LET j == i[d + 1] - p[1]
        IN  IF j < 0 THEN At(x, [i EXCEPT ![1] = nb(i[1], -1), ![d + 1] = m + j])
            ELSE IF j >= m THEN At(x, [i EXCEPT ![1] = nb(i[1], 1), ![d + 1] = j - m])
            ELSE At(x, [i EXCEPT ![d + 1] = j]))

HaloAdmissible(s, lay, pad) ==
  Divides(s, lay) /\ \A d \in 1..Len(lay) : pad[d][1] <= s[d] \div lay[d] /\ pad[d][2] <= s[d] \div lay[d]

(* --- patches --------------------------------------------------------------- *)
\* the lowest stencil index of a patch: centred, one extra above when even
PatchLow(k) == -((k - 1) \div 2)
Patches(x, ps) ==
  LET nd == Len(ps)
      ks == TLCEval(Tuples(ps))
  IN  Mk(SubSeq(x.s, 1, nd) \o <<Prod(ps)>>, LAMBDA i :
        At(x, [d \in 1..nd |-> (i[d] + ks[i[nd + 1] + 1][d] + PatchLow(ps[d])) % x.s[d]] \o <<0>>))

Relu(a) == Map1(a, LAMBDA x : Max2(x, 0))
=============================================================================
