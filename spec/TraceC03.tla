------------------------------ MODULE TraceC03 ------------------------------
(* Field algebra, grids, boundary-condition constructors, tree round trips.  *)
EXTENDS Grids, FiniteSets, TraceData
VARIABLES s, l, st

TOL == 8
Start(sess) == [none |-> [s |-> <<>>, v |-> <<>>]]

FieldBad(e, o, g, out) ==
  IF out.e # "" THEN {"raised-" \o out.e}
  ELSE UNION { IF out.s # e.s THEN {"size"} ELSE IF ~out.ok THEN {"not-finite"}
               ELSE IF ~NearA(e, out, TOL) THEN {"values"} ELSE {},
               IF out.o # o THEN {"location"} ELSE {},
               IF out.g # g THEN {"grid"} ELSE {} }

\* operands of an arithmetic event: registers, or a plain scalar / array
Operand(st0, x, shape) == IF x.kind = "reg" THEN st0[x.r] ELSE
                   IF x.kind = "scalar" THEN Const(shape, x.x) ELSE x.a
Tags(st0, ev) == { [o |-> st0[x.r].o, g |-> st0[x.r].g] :
                   x \in {ev.args[k] : k \in {j \in 1..Len(ev.args) : ev.args[j].kind = "reg"}} }
TagErr == {"InconsistentOffsetError", "InconsistentGridError"}

ArithExpect(st0, ev) ==
  LET sh == ev.shape
      A == Operand(st0, ev.args[1], sh)
  IN IF ev.fn = "where"
     THEN LET B == Operand(st0, ev.args[2], sh)  C == Operand(st0, ev.args[3], sh)
          IN  [s |-> sh, v |-> TLCEval([k \in 1..Len(A.v) |-> IF A.v[k] # 0 THEN B.v[k] ELSE C.v[k]])]
     ELSE IF Len(ev.args) = 2
     THEN Map2(A, Operand(st0, ev.args[2], sh), LAMBDA x, y : Bin(ev.fn, x, y))
     ELSE Map1(A, LAMBDA x : Un(ev.fn, x))

GridBad(ev) ==
  LET g == ev.out  w == ev.want IN
  IF ev.want.err # "" THEN (IF ev.e = ev.want.err THEN {} ELSE {"not-refused"})
  ELSE IF ev.e # "" THEN {"raised-" \o ev.e}
  ELSE UNION { IF g.n # w.n THEN {"shape"} ELSE {},
               IF \E d \in 1..Len(w.n) : Abs(g.h[d] - w.h[d]) > TOL THEN {"step"} ELSE {},
               IF \E d \in 1..Len(w.n) : Abs(g.lo[d] - w.lo[d]) > TOL \/ Abs(g.hi[d] - w.hi[d]) > TOL
                 THEN {"domain"} ELSE {},
               IF ~Coherent(g, 64) THEN {"incoherent"} ELSE {},
               IF ev.centre # Centre(Len(w.n)) THEN {"cell-centre"} ELSE {},
               IF ev.faces # [k \in 1..Len(w.n) |-> Face(Len(w.n), k)] THEN {"cell-faces"} ELSE {},
               IF ev.ndim # Len(w.n) THEN {"ndim"} ELSE {} }

AxesBad(ev) ==
  LET g == ev.g  nd == ND(g) IN
  IF ev.e # "" THEN {"raised-" \o ev.e}
  ELSE UNION {
    IF Len(ev.axes) # nd \/ \E d \in 1..nd : ev.axes[d].s # <<g.n[d]>> THEN {"axes-shape"}
    ELSE IF \E d \in 1..nd : \E j \in 1..g.n[d] :
            Abs(ev.axes[d].v[j] - Coord(g, d, ev.off[d], j - 1)) > TOL THEN {"axes"} ELSE {},
    IF \E d \in 1..nd : ev.mesh[d].s # g.n THEN {"mesh-shape"}
    ELSE IF \E d \in 1..nd : \E k \in 1..Prod(g.n) :
            Abs(ev.mesh[d].v[k] - Coord(g, d, ev.off[d], Unrav(k - 1, g.n)[d])) > TOL THEN {"mesh"} ELSE {},
    \* a linear function evaluated on the mesh
    IF ev.fn.o # ev.off \/ ev.fn.g # g \/ ev.fn.s # g.n THEN {"eval-tag"}
    ELSE IF \E k \in 1..Prod(g.n) :
         Abs(ev.fn.v[k] - (SumS([d \in 1..nd |-> d * Coord(g, d, ev.off[d], Unrav(k - 1, g.n)[d])]) + ONE)) > 4 * TOL
         THEN {"eval-values"} ELSE {} }

FreqAxis(g, d, half, n, j) ==
  LET kk == IF half THEN RFreq(n, j) ELSE Freq(n, j)
      num == kk * g.r[d]
  IN  Sgn(num) * (Abs(num) \div n)
FreqBad(ev) ==
  LET g == ev.g  nd == ND(g)
      Len1(d, half) == IF half THEN RLen(g.n[d]) ELSE g.n[d]
      ok(ax, d, half) == /\ ax.s = <<Len1(d, half)>>
                         /\ \A j \in 1..Len(ax.v) :
                              \* the Nyquist mode of an even length may carry either sign
                              \/ Abs(ax.v[j] - FreqAxis(g, d, half, g.n[d], j - 1)) <= 64
                              \/ (2 * (j - 1) = g.n[d] /\ Abs(Abs(ax.v[j]) - Abs(FreqAxis(g, d, half, g.n[d], j - 1))) <= 64)
  IN UNION { IF \E d \in 1..nd : ~ok(ev.fft[d], d, FALSE) THEN {"fft-axes"} ELSE {},
             IF \E d \in 1..nd : ~ok(ev.rfft[d], d, d = nd) THEN {"rfft-axes"} ELSE {},
             LET sh == [d \in 1..nd |-> Len1(d, d = nd)] IN
             IF \E d \in 1..nd : ev.rmesh[d].s # sh \/
                  \E k \in 1..Prod(sh) : ev.rmesh[d].v[k] # ev.rfft[d].v[Unrav(k - 1, sh)[d] + 1]
             THEN {"rfft-mesh"} ELSE {} }

MasksBad(ev) ==
  LET g == ev.g nd == ND(g) IN
  IF Len(ev.masks) # nd \/ \E c \in 1..nd : ev.masks[c].s # g.n THEN {"mask-shape"}
  ELSE IF \E c \in 1..nd : \E k \in 1..Prod(g.n) :
     LET i == Unrav(k - 1, g.n)
         inside == \A d \in 1..nd : LET p == Face(nd, c)[d] + 4 * i[d] IN p > 0 /\ p < 4 * g.n[d]
     IN ev.masks[c].v[k] # (IF inside THEN ONE ELSE 0) THEN {"mask"} ELSE {}

\* --- advective flux boundary condition ---
FluxWant(u, c, dir) ==
  LET nd == Len(u.t)
      side(i) == IF u.t[dir][i] = "D" /\ u.b[dir][i] = 0 THEN "D"
                 ELSE IF u.t[dir][i] = "N" /\ c.t[dir][i] = "N" /\ c.b[dir][i] = 0 THEN "N" ELSE "X"
  IN [d \in 1..nd |-> IF u.t[d][1] = "P" THEN <<"P", "P">>
                      ELSE IF d # dir THEN <<"D", "D">> ELSE <<side(1), side(2)>>]

FStep(st0, ev) ==
  CASE ev.op = "new" -> [st |-> (ev.r :> ev.f) @@ st0, bad |-> {}]
    [] ev.op = "arith" ->
        IF Cardinality(Tags(st0, ev)) > 1
        THEN [st |-> st0, bad |-> IF ev.out.e \in TagErr THEN {} ELSE {"mixed-locations-accepted"}]
        ELSE LET e == ArithExpect(st0, ev)
                 t == CHOOSE x \in Tags(st0, ev) : TRUE
                 f == [s |-> e.s, v |-> e.v, o |-> t.o, g |-> t.g]
             IN [st |-> (ev.r :> f) @@ st0, bad |-> FieldBad(e, t.o, t.g, ev.out)]
    [] ev.op = "refuse" -> [st |-> st0, bad |-> IF ev.out.e \in {ev.want[k] : k \in 1..Len(ev.want)} THEN {} ELSE {"not-refused"}]
    [] ev.op = "roundtrip" ->
        \* flatten/rebuild or compiled identity: every observable is unchanged
        [st |-> st0, bad |-> IF ev.e # "" THEN {"raised-" \o ev.e}
                             ELSE IF ev.after # ev.before THEN {"changed"} ELSE {}]
    [] ev.op = "grid"  -> [st |-> st0, bad |-> GridBad(ev)]
    [] ev.op = "axes"  -> [st |-> st0, bad |-> AxesBad(ev)]
    [] ev.op = "freq"  -> [st |-> st0, bad |-> FreqBad(ev)]
    [] ev.op = "masks" -> [st |-> st0, bad |-> MasksBad(ev)]
    [] ev.op = "meanloc" -> [st |-> st0, bad |-> IF ev.out = MeanLoc(ev.os) THEN {} ELSE {"averaged-location"}]
    [] ev.op = "cvloc" -> [st |-> st0, bad |->
           IF ev.out = [j \in 1..Len(ev.o) |-> [ev.o EXCEPT ![j] = @ + 2]] THEN {} ELSE {"face-locations"}]
    [] ev.op = "unique" ->
        [st |-> st0, bad |-> IF ev.same THEN (IF ev.e = "" /\ ev.ret THEN {} ELSE {"unique-refused"})
                             ELSE (IF ev.e = ev.want THEN {} ELSE {"difference-accepted"})]
    [] ev.op = "stagger" ->
        [st |-> st0, bad |-> IF ev.outs = ev.want THEN {} ELSE {"placement"}]
    [] ev.op = "mkbc" ->
        [st |-> st0, bad |-> IF ev.e # "" THEN {"raised-" \o ev.e} ELSE UNION {
             IF ev.out.t # ev.want.t THEN {"types"} ELSE {}, IF ev.out.b # ev.want.b THEN {"values"} ELSE {},
             IF ~ev.hash THEN {"not-reusable"} ELSE {} }]
    [] ev.op = "pbc" ->
        LET mixed == \E d \in 1..ev.nd : \E a, b \in 1..Len(ev.ts) : (ev.ts[a][d][1] = "P") # (ev.ts[b][d][1] = "P")
        IN [st |-> st0, bad |->
             IF mixed THEN (IF ev.e = "InconsistentBoundaryConditionsError" THEN {} ELSE {"mixed-periodicity-accepted"})
             ELSE IF ev.e # "" THEN {"raised-" \o ev.e}
             ELSE UNION { IF ev.out.t # PressureTypes(ev.ts, ev.nd) THEN {"pressure-types"} ELSE {},
                          IF \E d \in 1..ev.nd : ev.out.b[d] # <<0, 0>> THEN {"pressure-values"} ELSE {},
                          IF ev.allper # (\A a \in 1..Len(ev.ts) : \A d \in 1..ev.nd : ev.ts[a][d][1] = "P") THEN {"all-periodic"} ELSE {},
                          IF ev.cons # [d \in 1..ev.nd |-> IF ev.ts[1][d][1] = "P" THEN "periodic" ELSE "nonperiodic"]
                            THEN {"periodicity"} ELSE {} }]
    [] ev.op = "fluxbc" ->
        LET w == FluxWant(ev.u, ev.c, ev.dir)
            bad == ~ev.homog \/ \E d \in 1..Len(w) : w[d][1] = "X" \/ w[d][2] = "X"
        IN [st |-> st0, bad |->
             IF bad THEN (IF ev.e = "NotImplementedError" THEN {} ELSE {"unsupported-accepted"})
             ELSE IF ev.e # "" THEN {"raised-" \o ev.e}
             ELSE UNION { IF ev.out.t # w THEN {"flux-types"} ELSE {},
                          IF \E d \in 1..Len(w) : ev.out.b[d] # <<0, 0>> THEN {"flux-values"} ELSE {},
                          IF ~ev.hash THEN {"not-reusable"} ELSE {} }]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
