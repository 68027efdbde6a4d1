------------------------------ MODULE TraceC23 ------------------------------
(* Recorded encoders, decoders, network wrappers, models (C23).              *)
EXTENDS Plumb, TraceData
VARIABLES s, l, st

TOL == 32
Start(sess) == [none |-> 0]
Raised(out) == out.e # ""
Each(outs, n, F(_)) == IF Len(outs) # n THEN {"components"} ELSE UNION { F(c) : c \in 1..n }

\* a trajectory of arrays to fields: last frame, put where the component lives
EncodeBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET f(c) == FieldOf(LastFrame(ev.xs[c], 1), ev.offs[c], ev.g, ev.bcs[c])
           e(c) == IF ev.kind = "interpolated" THEN Linear(f(c), ev.to[c]) ELSE IF ev.kind = "imposed" THEN Impose(f(c)) ELSE f(c)
           F(c) == VarBad(ev.outs[c], e(c), ev.to[c], ev.g, ev.bcs[c], TOL)
       IN  Each(ev.outs, Len(ev.to), F)
\* a trajectory of arrays to arrays
SliceBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET ax(c) == PyAxis(ev.axis, Len(ev.xs[c].s))
           e == IF ev.kind = "last" THEN TLCEval([c \in 1..Len(ev.xs) |-> LastFrame(ev.xs[c], ax(c))])
                ELSE IF ev.kind = "lastn" THEN TLCEval([c \in 1..Len(ev.xs) |-> LastFrames(ev.xs[c], ax(c), ev.n)])
                ELSE <<JoinChannels(TLCEval([c \in 1..Len(ev.xs) |-> LastFrames(ev.xs[c], ax(c), ev.n)]))>>
           F(c) == DataBad(ev.outs[c], e[c], 0)
       IN  Each(ev.outs, Len(e), F)
\* the same through a network, as arrays or as fields
LatentBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET x == IF ev.kind = "decode" THEN ev.xs[1]
                ELSE IF ev.kind = "decodef" THEN Stacked(ev.xs)
                ELSE JoinChannels(TLCEval([c \in 1..Len(ev.xs) |-> LastFrames(ev.xs[c], PyAxis(ev.axis, Len(ev.xs[c].s)), ev.n)]))
           y == Mixed(x, ev.M, ev.b)
           F(c) == IF ev.kind = "encodef" THEN VarBad(ev.outs[c], Channel(y, c), ev.offs[c], ev.g, Periodic(Len(ev.g.n)), TOL)
                   ELSE DataBad(ev.outs[c], Channel(y, c), TOL)
       IN  IF ev.kind = "encode" THEN LET G(c) == DataBad(ev.outs[1], y, TOL) IN Each(ev.outs, 1, G)
           ELSE Each(ev.outs, IF ev.kind = "encodef" THEN Min2(Len(ev.b), Len(ev.offs)) ELSE Len(ev.b), F)
\* fields to arrays
DecodeBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET F(c) == DataBad(ev.outs[c], IF ev.kind = "centred" THEN Linear(ev.w[c], CentreOf(Len(ev.w[c].o))) ELSE ev.w[c], TOL)
       IN  Each(ev.outs, Len(ev.w), F)
\* fields to channels
StackBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET x == Stacked(ev.w) IN DataBad(ev.outs[1], IF ev.n = 0 THEN x ELSE Neighbours(x, ev.n), 0)
\* channels to arrays, or to fields at their locations, or to the push of fluxes
SplitBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET x == ev.xs[1] IN
    IF ev.kind = "arrays" THEN LET F(c) == DataBad(ev.outs[c], Channel(x, c), 0) IN Each(ev.outs, Channels(x), F)
    ELSE LET e == IF ev.kind = "flux" THEN FluxPush(x, ev.g) ELSE SplitTo(x, ev.from, ev.to, ev.g, ev.bcs)
             F(c) == VarBad(ev.outs[c], e[c], ev.to[c], ev.g, ev.bcs[c], TOL)
         IN  Each(ev.outs, Len(e), F)
             \cup (IF ev.kind = "flux" /\ \E c \in 1..Len(ev.outs) : ev.outs[c].ok /\ Abs(SumS(ev.outs[c].v)) > TOL * Len(ev.outs[c].v)
                   THEN {"not-conservative"} ELSE {})
\* fields moved to given locations
MoveBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET p(c) == [ev.w[c] EXCEPT !.v = [k \in 1..Len(@) |-> FMul(ev.scale, @[k])]]
           F(c) == VarBad(ev.outs[c], Linear(p(c), ev.to[c]), ev.to[c], ev.w[c].g, ev.w[c].bc, TOL)
       IN  Each(ev.outs, Len(ev.to), F)
\* a network from fields to fields
NetworkBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET nd == Len(ev.g.n)
           x == IF ev.kind = "walls" THEN Stacked(TLCEval([c \in 1..Len(ev.w) |-> Linear(ev.w[c], ev.from[c])]))
                ELSE IF ev.n = 0 THEN Stacked(ev.w) ELSE Neighbours(Stacked(ev.w), ev.n)
           y == Mixed(x, ev.M, ev.b)
           e == IF ev.kind = "flux" THEN FluxPush(y, ev.g)
                ELSE IF ev.kind = "walls" THEN SplitTo(y, ev.from, ev.to, ev.g, ev.bcs)
                ELSE SplitTo(y, ev.to, ev.to, ev.g, ev.bcs)
           F(c) == VarBad(ev.outs[c], e[c], ev.to[c], ev.g, ev.bcs[c], 4 * TOL)
       IN  IF ev.kind = "plain" THEN LET G(c) == DataBad(ev.outs[1], y, TOL) IN Each(ev.outs, 1, G)
           ELSE Each(ev.outs, Len(e), F)
\* viscosities predicted from the velocity
SameNu(e, o) == UNION { IF o[k].s # e[k].s THEN {"size"} ELSE IF ~o[k].ok THEN {"not-finite"}
                        ELSE IF ~NearA(e[k], o[k], TOL) THEN {"viscosity"} ELSE {} : k \in 1..Len(e) }
ViscosityBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE IF Len(ev.outs) # Len(ev.w) * Len(ev.w) THEN {"components"}
  ELSE IF ev.kind = "scalar" THEN SameNu(Flat(ScalarVisc(ev.w, ev.w, ev.M, ev.b, ev.scale)), ev.outs)
  ELSE IF ev.kind = "gradients" THEN SameNu(Flat(ScalarVisc(ev.w, CentredStrain(ev.w), ev.M, ev.b, ev.scale)), ev.outs)
  ELSE LET S == Flat(Strain(ev.w))  locs == {S[k].o : k \in 1..Len(S)}
           y == Mixed(Stacked(ev.w), ev.M, ev.b)
           ch(c) == LET a == Channel(y, c) IN [s |-> a.s, v |-> [k \in 1..Len(a.v) |-> FMul(ev.scale, a.v[k])]]
           nl == Cardinality(locs)
       IN  \* every location has a channel of its own
           IF Len(ev.b) # nl THEN {"channels"}
           ELSE IF \E k \in 1..Len(S) : ~ev.outs[k].ok THEN {"not-finite"}
           ELSE IF \E f \in [locs -> 1..nl] : /\ \A p, q \in locs : p # q => f[p] # f[q]
                     /\ \A k \in 1..Len(S) : NearA(ch(f[S[k].o]), ev.outs[k], TOL)
                THEN {} ELSE {"viscosity"}
\* velocity, vorticity, and back; the transforms of both sides are recorded
CurlBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET e == CurlHat(ev.uh[1], ev.uh[2], ev.ku)
       IN (IF ev.kind = "spectral" THEN {} ELSE IF ev.sizes # ev.want THEN {"size"} ELSE {})
          \cup (IF ev.sizes # ev.want THEN {} ELSE IF ~CNear(ev.oh[1], e, ev.tol) THEN {"vorticity"} ELSE {})
          \cup (IF ev.kind # "both" \/ ev.sizes # ev.want THEN {}
                ELSE UNION { IF CNear(ev.oh[c + 1], ev.uh[c], ev.tol) THEN {} ELSE {"velocity"} : c \in 1..2 })
BiotSavartBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE IF ev.sizes # ev.want THEN {"size"}
  ELSE UNION { IF CNear(ev.oh[c], VelHat(ev.wh, ev.ku, c), ev.tol) THEN {} ELSE {"velocity"} : c \in 1..2 }
\* modules that choose a scheme: a scalar, or every component, carried by a velocity
AdvectBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET c0 == IF ev.self THEN ev.w ELSE <<ev.c>>
           ex(c) == FluxForm(ev.scheme, c0[c], ev.w, ev.dt)
           F(c) == FieldBad(ev.outs[c], ex(c), c0[c].o, ev.g, 512)
       IN  Each(ev.outs, Len(c0), F)
\* a model: encode, advance, decode every recorded state
RECURSIVE Advanced(_, _, _, _)
Advanced(a, b, v, n) == IF n = 0 THEN v ELSE Advanced(a, b, [k \in 1..Len(v) |-> FMul(a, v[k]) + b], n - 1)
ModelBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET nd == Len(ev.g.n)
           enc(c) == LET f == FieldOf(LastFrame(ev.xs[c], 1), IF ev.kind = "centred" THEN CentreOf(nd) ELSE FacesOf(nd)[c], ev.g, Periodic(nd))
                     IN  IF ev.kind = "centred" THEN Linear(f, FacesOf(nd)[c]) ELSE f
           state(c, n) == LET f == enc(c) IN [f EXCEPT !.v = Advanced(ev.a, ev.b, f.v, n)]
           shown(c, n) == IF ev.kind = "centred" THEN Linear(state(c, n), CentreOf(nd)) ELSE state(c, n)
           F(c) == (IF ev.outs[c].s # <<ev.outer>> \o ev.g.n THEN {"size"} ELSE IF ~ev.outs[c].ok THEN {"not-finite"}
                    ELSE UNION { DataBad([Frame(ev.outs[c], 1, k - 1) EXCEPT !.v = @] @@ [e |-> "", ok |-> TRUE],
                                         shown(c, ev.inner * (IF ev.first THEN k - 1 ELSE k)), TOL) : k \in 1..ev.outer })
                   \cup VarBad(ev.fin[c], state(c, ev.inner * ev.outer), FacesOf(nd)[c], ev.g, Periodic(nd), TOL)
       IN  Each(ev.outs, nd, F)
\* x' = c x + d, integrated by forward Euler: final state, and every state on the way
RECURSIVE EulerAt(_, _, _)
EulerAt(ev, v, n) == IF n = 0 THEN v ELSE EulerAt(ev, [k \in 1..Len(v) |-> v[k] + FMul(ev.dt, FMul(ev.a, v[k]) + ev.b)], n - 1)
EulerBad(ev) ==
  IF Raised(ev.out) THEN {"raised-" \o ev.out.e}
  ELSE LET sh(c) == ev.xs[c].s
           F(c) == DataBad(ev.outs[c], [s |-> sh(c), v |-> EulerAt(ev, ev.xs[c].v, ev.n)], TOL)
                   \cup (IF ev.traj[c].s # <<ev.n>> \o sh(c) THEN {"size"}
                         ELSE UNION { IF NearA(Frame(ev.traj[c], 1, k - 1), [s |-> sh(c), v |-> EulerAt(ev, ev.xs[c].v, k)], TOL) THEN {} ELSE {"values"} : k \in 1..ev.n })
       IN  Each(ev.outs, Len(ev.xs), F)

FStep(st0, ev) ==
  [st |-> st0, bad |->
    CASE ev.op = "encode" -> EncodeBad(ev)
      [] ev.op = "slice" -> SliceBad(ev)
      [] ev.op = "latent" -> LatentBad(ev)
      [] ev.op = "decode" -> DecodeBad(ev)
      [] ev.op = "stack" -> StackBad(ev)
      [] ev.op = "split" -> SplitBad(ev)
      [] ev.op = "move" -> MoveBad(ev)
      [] ev.op = "network" -> NetworkBad(ev)
      [] ev.op = "viscosity" -> ViscosityBad(ev)
      [] ev.op = "curl" -> CurlBad(ev)
      [] ev.op = "velocity" -> BiotSavartBad(ev)
      [] ev.op = "advect" -> AdvectBad(ev)
      [] ev.op = "model" -> ModelBad(ev)
      [] ev.op = "euler" -> EulerBad(ev)
      [] ev.op = "refuse" -> RaisedBad(ev.out.e, {ev.want}) ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
