----------------------------- MODULE Sampling -----------------------------
(***************************************************************************)
(* Sampling of fields on structured grids.                                 *)
(*                                                                         *)
(* A grid is an array of cells between integer corner points (rectilinear, *)
(* or curvilinear: sheared, rotated, trapezoidal), with depth levels that  *)
(* are fixed (z), decreasing (zdown) or vary from point to point (s).      *)
(* A particle visits one place after the other; a place is a cell and a    *)
(* relative position in it, in quarters.  The value sampled there depends  *)
(* on that place only, never on the places visited before, although the    *)
(* implementation starts its search at the cell of the previous visit.     *)
(* Visits outside the grid give an error of the right kind and no value;   *)
(* the particle then goes to its home place and is sampled there.          *)
(* A second field, on another rectilinear grid, is sampled in each visit.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Grids,     \* grid numbers to choose from
          Verts,     \* subset of {"none", "z", "zdown", "s"}
          Methods,   \* interpolation methods
          Index,     \* grid indexing conventions, subset of {"nemo", "mitgcm", "mom5", "pop"}
          Taus,      \* sample times in eighths between the two time slices
          Outs,      \* kinds of places outside the grid
          Seeds, MaxV, Emit

Axis(X, Y) == [rect |-> TRUE, nx |-> Len(X), ny |-> Len(Y), x |-> [j \in 1..Len(Y) |-> X], y |-> [j \in 1..Len(Y) |-> [i \in 1..Len(X) |-> Y[j]]]]
Curv(nx, ny, fx(_, _), fy(_, _)) == [rect |-> FALSE, nx |-> nx, ny |-> ny,
       x |-> [j \in 1..ny |-> [i \in 1..nx |-> fx(i - 1, j - 1)]], y |-> [j \in 1..ny |-> [i \in 1..nx |-> fy(i - 1, j - 1)]]]

Lib(g) ==
  CASE g = 1 -> Axis(<<0, 2, 3, 6>>, <<-2, 0, 4>>)
    [] g = 2 -> Axis(<<-9, -7, -1, 0, 4, 12>>, <<1, 2, 5, 6>>)
    [] g = 3 -> Axis(<<0, 4>>, <<0, 3>>)
    [] g = 4 -> LET fx(i, j) == 4 * i + j  fy(i, j) == 3 * j IN Curv(4, 3, fx, fy)            \* sheared
    [] g = 5 -> LET fx(i, j) == 4 * i - 3 * j  fy(i, j) == 3 * i + 4 * j IN Curv(4, 4, fx, fy)  \* rotated
    [] g = 6 -> LET fx(i, j) == (i - 1) * (10 - 3 * j)  fy(i, j) == 4 * j IN Curv(3, 3, fx, fy) \* trapezoids
    [] g = 7 -> LET fx(i, j) == -5 * j  fy(i, j) == 4 * i IN Curv(3, 4, fx, fy)               \* turned by 90 degrees
    [] g = 8 -> LET fx(i, j) == 3 * i + i * i  fy(i, j) == 2 * j + 3 * j * j IN Curv(4, 3, fx, fy) \* rectangles given as a curvilinear grid
    [] g = 9 -> LET fx(i, j) == 6 * i + (IF j = 1 THEN i ELSE 0)  fy(i, j) == 5 * j + i IN Curv(4, 3, fx, fy) \* general quadrangles
    [] g = 10 -> LET fx(i, j) == i * (4 + 3 * j)  fy(i, j) == 4 * j IN Curv(2, 3, fx, fy) \* trapezoids, one column
GLib == [n \in 1..10 |-> Lib(n)]
CGridOK == {1, 2, 3, 5, 6, 7, 8}   \* with edges of integer length

Deps == <<0, 2, 6, 10>>
MomDeps == <<4, 8, 10, 16>>  \* the first cell is as thick as the second one
Sig(i, j) == 1 + ((i + 2 * j) % 3)        \* stretching of the s levels
BLon == <<-40, -5, 3, 60>>
BLat == <<-40, 2, 60>>

VARIABLES ph, g, vert, meth, ix, tau, seed, cur, visits
vars == <<ph, g, vert, meth, ix, tau, seed, cur, visits>>

G == GLib[g]
NZ == IF vert = "none" THEN 1 ELSE IF ix \in {"pop", "mom5"} THEN 4 ELSE 3 + (seed % 2)
Dp(k) == LET d == IF ix = "mom5" THEN MomDeps[k] ELSE Deps[k] IN IF vert = "zdown" THEN -d ELSE d
\* depth of level k at point (i, j)
Dpt(k, j, i) == IF vert = "s" THEN Dp(k) * Sig(i, j) ELSE Dp(k)

(* ------------------------------- the data ----------------------------- *)
Raw(f, t, k, j, i) ==
  LET h == (f * 5 + t * 3 + k * 7 + j * 11 + i * 13 + i * j * 3 + k * i * 2 + seed * 17 + seed * i * 5 + seed * j) % 19
  IN IF meth = "linear_invdist_land_tracer" /\ h % 3 = 0 THEN 0 ELSE IF h < 6 THEN h - 10 ELSE h - 5
\* the value at the sample time, in eighths
Dat(f, k, j, i) == (8 - tau) * Raw(f, 0, k, j, i) + tau * Raw(f, 1, k, j, i)

(* ------------------------------- sampling ----------------------------- *)
\* p: place [i, j, k: cell, xs, et, ze: position in the cell in quarters]
W2(p) == <<(4 - p.xs) * (4 - p.et), p.xs * (4 - p.et), p.xs * p.et, (4 - p.xs) * p.et>>   \* sixteenths
Bil(p, v(_, _)) == LET w == W2(p) IN w[1] * v(p.j, p.i) + w[2] * v(p.j, p.i + 1) + w[3] * v(p.j + 1, p.i + 1) + w[4] * v(p.j + 1, p.i)
PosX(p) == LET v(j, i) == G.x[j][i] IN Bil(p, v)        \* sixteenths
PosY(p) == LET v(j, i) == G.y[j][i] IN Bil(p, v)
\* at which position in the cell the depth levels are taken: b-grids use the corner point
Col(p) == IF meth \in {"bgrid_velocity", "bgrid_w_velocity", "bgrid_tracer"} THEN [p EXCEPT !.xs = 4, !.et = 4] ELSE p
DepC(p, k) == LET v(j, i) == Dpt(k, j, i) IN Bil(Col(p), v)
PosZ(p) == IF vert = "none" THEN 0
           ELSE IF p.k = 0 THEN 16 * p.ze * Dp(1)   \* above the first level of MOM5 grids: from 0 to the first depth
           ELSE (4 - p.ze) * DepC(p, p.k) + p.ze * DepC(p, p.k + 1)  \* sixty-fourths
Near(q) == IF q < 2 THEN 0 ELSE 1
Q(n, d) == [n |-> n, d |-> d, terms |-> <<>>]

Lin(f, p) ==
  LET at(k) == LET v(j, i) == Dat(f, k, j, i) IN Bil(p, v) IN
  IF NZ = 1 THEN Q(at(1), 8 * 16)
  ELSE Q((4 - p.ze) * (IF p.k = 0 THEN 0 ELSE at(p.k)) + p.ze * (IF ix = "pop" /\ p.k = NZ - 1 THEN 0 ELSE at(p.k + 1)), 8 * 64)

\* the weights of the inverse distance method: pairs of value and squared distance (in sixteenths)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
InvDist(f, p) ==
  LET ks == IF NZ = 1 THEN {0} ELSE {0, 1}
      C == {<<a, b, c>> : a \in ks, b \in {0, 1}, c \in {0, 1}}
      v(c) == Dat(f, IF NZ = 1 THEN 1 ELSE p.k + c[1], p.j + c[2], p.i + c[3])
      sq(a) == a * a
      d(c) == sq(p.xs - 4 * c[3]) + sq(p.et - 4 * c[2]) + (IF NZ = 1 THEN 0 ELSE sq(p.ze - 4 * c[1]))
      hit == {c \in C : d(c) = 0}
      wet == {c \in C : v(c) # 0}
  IN IF wet = {} THEN Q(0, 8)
     ELSE IF wet = C THEN Lin(f, p)
     ELSE IF hit # {} THEN Q(v(CHOOSE c \in hit : TRUE), 8)
     ELSE [n |-> 0, d |-> 8, terms |-> [m \in 1..Cardinality(wet) |-> LET c == SeqOf(wet)[m] IN <<v(c), d(c)>>]]

Lev(p) == IF NZ = 1 THEN 1 ELSE IF p.k = 0 THEN 1 ELSE p.k
Abs(x) == IF x < 0 THEN -x ELSE x
Roots == [q \in {s * s : s \in 0..60} |-> CHOOSE s \in 0..60 : s * s = q]
Len2(a, b) == Roots[a * a + b * b]
\* corners of the cell, anticlockwise
PX(p) == <<G.x[p.j][p.i], G.x[p.j][p.i + 1], G.x[p.j + 1][p.i + 1], G.x[p.j + 1][p.i]>>
PY(p) == <<G.y[p.j][p.i], G.y[p.j][p.i + 1], G.y[p.j + 1][p.i + 1], G.y[p.j + 1][p.i]>>
Edge(p, a, b) == Len2(PX(p)[b] - PX(p)[a], PY(p)[b] - PY(p)[a])
Flux(p) ==   \* <<U0, U1, V0, V1>>: values on the four faces times their lengths
  LET k == Lev(p) s == IF ix = "nemo" THEN 1 ELSE 0 IN
  <<Dat(1, k, p.j + s, p.i) * Edge(p, 4, 1), Dat(1, k, p.j + s, p.i + 1) * Edge(p, 2, 3),
    Dat(2, k, p.j, p.i + s) * Edge(p, 1, 2), Dat(2, k, p.j + 1, p.i + s) * Edge(p, 3, 4)>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3] + a[4] * b[4]
DXs(p) == <<p.et - 4, 4 - p.et, p.et, -p.et>>   \* quarters
DEt(p) == <<p.xs - 4, -p.xs, p.xs, 4 - p.xs>>
Jac(p) == Dot(PX(p), DXs(p)) * Dot(PY(p), DEt(p)) - Dot(PX(p), DEt(p)) * Dot(PY(p), DXs(p))  \* sixteenths
CUV(p) ==
  LET F == Flux(p)
      U == (4 - p.xs) * F[1] + p.xs * F[2]    \* quarters
      V == (4 - p.et) * F[3] + p.et * F[4]
      c == [n \in 1..4 |-> U * DXs(p)[n] + V * DEt(p)[n]]    \* sixteenths
  IN <<Q(Dot(c, PX(p)), 8 * Jac(p)), Q(Dot(c, PY(p)), 8 * Jac(p))>>
\* values at two levels, interpolated
Vertical(f, p, s) ==
  LET a == IF p.k = 0 THEN 0 ELSE Dat(f, p.k, p.j + s, p.i + s)
      b == IF ix = "pop" /\ p.k = NZ - 1 THEN 0 ELSE Dat(f, p.k + 1, p.j + s, p.i + s)
  IN Q((4 - p.ze) * a + p.ze * b, 8 * 4)
Horizontal(f, p, k) == LET v(j, i) == Dat(f, k, j, i) IN Q(Bil(p, v), 8 * 16)

Value(p) ==
  CASE meth = "linear" -> <<Lin(1, p)>>
    [] meth = "nearest" -> <<Q(Dat(1, IF NZ = 1 THEN 1 ELSE p.k + Near(p.ze), p.j + Near(p.et), p.i + Near(p.xs)), 8)>>
    [] meth = "linear_invdist_land_tracer" -> <<InvDist(1, p)>>
    [] meth \in {"cgrid_tracer", "bgrid_tracer"} -> <<Q(Dat(1, Lev(p), p.j + 1, p.i + 1), 8)>>
    [] meth = "uv" -> <<Lin(1, p), Lin(2, p)>> \o (IF NZ > 1 THEN <<Lin(3, p)>> ELSE <<>>)
    [] meth = "bgrid_velocity" ->
         IF NZ = 1 THEN <<Horizontal(1, p, 1), Horizontal(2, p, 1)>>
         ELSE LET k == IF ix = "mom5" THEN p.k + 1 ELSE p.k IN <<Horizontal(1, p, k), Horizontal(2, p, k), Vertical(3, p, 1)>>
    [] meth = "cgrid_velocity" ->
         IF NZ = 1 THEN CUV(p) ELSE CUV(p) \o <<Vertical(3, p, IF ix = "nemo" THEN 1 ELSE 0)>>

\* where the value is specified: methods with jumps leave the places of the jumps open
Inner == {1, 2, 3}
Spec2(xs, et) ==
  CASE meth \in {"linear", "uv"} -> TRUE
    [] meth = "nearest" -> xs # 2 /\ et # 2
    [] meth = "linear_invdist_land_tracer" -> (xs \in Inner) = (et \in Inner)
    [] meth = "bgrid_velocity" -> NZ = 1 \/ (xs \in Inner /\ et \in Inner)
    [] OTHER -> xs \in Inner /\ et \in Inner
SpecZ(xs, ze) ==
  CASE NZ = 1 -> ze = 0
    [] meth \in {"linear", "uv"} -> TRUE
    [] meth = "nearest" -> ze # 2
    [] meth = "linear_invdist_land_tracer" -> (xs \in Inner) = (ze \in Inner)
    [] OTHER -> ze \in Inner

(* the second field, linear on its own rectilinear grid *)
Find(X, n) == CHOOSE m \in 1..(Len(X) - 1) : (m = 1 \/ 16 * X[m] < n) /\ n <= 16 * X[m + 1]
BVal(x, y) ==
  LET i == Find(BLon, x)  j == Find(BLat, y)
      dx == 16 * (BLon[i + 1] - BLon[i])  dy == 16 * (BLat[j + 1] - BLat[j])
      a == x - 16 * BLon[i]  b == y - 16 * BLat[j]
      v(jj, ii) == ((ii * 7 + jj * 5 + seed) % 11) - 3
  IN Q(((dx - a) * v(j, i) + a * v(j, i + 1)) * (dy - b) + ((dx - a) * v(j + 1, i) + a * v(j + 1, i + 1)) * b, dx * dy)

(* ------------------------------ behaviour ----------------------------- *)
HomePlace == [i |-> 1, j |-> 1, k |-> 1, xs |-> 1, et |-> 1, ze |-> IF vert = "none" THEN 0 ELSE 1]
NoCur == [i |-> 0, j |-> 0, k |-> 0, xs |-> 0, et |-> 0, ze |-> 0]

Init == /\ ph = "grid" /\ g \in Grids /\ vert = "none" /\ meth = "linear" /\ ix = "nemo" /\ tau = 0 /\ seed = 0 /\ cur = NoCur /\ visits = <<>>

PickVert == /\ ph = "grid" /\ vert' \in Verts /\ ph' = "meth" /\ UNCHANGED <<g, meth, ix, tau, seed, cur, visits>>
PickMeth ==
  /\ ph = "meth" /\ meth' \in Methods /\ ph' = "ix"
  /\ meth' = "cgrid_velocity" => g \in CGridOK /\ vert # "s"
  /\ UNCHANGED <<g, vert, ix, tau, seed, cur, visits>>
PickIx ==
  /\ ph = "ix" /\ ix' \in Index
  /\ ix' \in {"mom5", "pop"} => meth \in {"linear", "bgrid_velocity", "bgrid_tracer"} /\ vert = "z"
  /\ ix' = "mitgcm" => meth = "cgrid_velocity" /\ G.rect
  /\ ph' = "tau" /\ UNCHANGED <<g, vert, meth, tau, seed, cur, visits>>
PickTau ==
  /\ ph = "tau" /\ tau' \in Taus /\ (meth = "linear_invdist_land_tracer" => tau' = 0)
  /\ seed' \in Seeds /\ ph' = "i" /\ UNCHANGED <<g, vert, meth, ix, cur, visits>>

PickI == /\ ph = "i" /\ Len(visits) < MaxV /\ \E i \in 1..(G.nx - 1) : cur' = [cur EXCEPT !.i = i]
         /\ ph' = "j" /\ UNCHANGED <<g, vert, meth, ix, tau, seed, visits>>
PickJ == /\ ph = "j" /\ \E j \in 1..(G.ny - 1) : cur' = [cur EXCEPT !.j = j]
         /\ ph' = "k" /\ UNCHANGED <<g, vert, meth, ix, tau, seed, visits>>
PickK == /\ ph = "k" /\ \E k \in (IF NZ = 1 THEN {1} ELSE (IF ix = "mom5" THEN 0 ELSE 1)..(NZ - 1)) : cur' = [cur EXCEPT !.k = k]
         /\ ph' = "xe" /\ UNCHANGED <<g, vert, meth, ix, tau, seed, visits>>
PickXE == /\ ph = "xe" /\ \E xs, et \in 0..4 : Spec2(xs, et) /\ cur' = [cur EXCEPT !.xs = xs, !.et = et]
          /\ ph' = "ze" /\ UNCHANGED <<g, vert, meth, ix, tau, seed, visits>>
PickZ == /\ ph = "ze" /\ \E ze \in 0..4 : SpecZ(cur.xs, ze) /\ (cur.k = 0 => ze > 0) /\ cur' = [cur EXCEPT !.ze = ze]
         /\ ph' = "visit" /\ UNCHANGED <<g, vert, meth, ix, tau, seed, visits>>

Record(x, y, z, err, p) == [x |-> x, y |-> y, z |-> z, err |-> err, v |-> Value(p), b |-> BVal(PosX(p), PosY(p)),
                            hx |-> PosX(p), hy |-> PosY(p), hz |-> PosZ(p)]
Visit ==
  /\ ph = "visit" /\ ph' = "i"
  /\ visits' = Append(visits, Record(PosX(cur), PosY(cur), PosZ(cur), "none", cur))
  /\ cur' = NoCur /\ UNCHANGED <<g, vert, meth, ix, tau, seed>>

RECURSIVE MinMax(_, _)
MinMax(A, big) == LET S == {A[j][i] : j \in 1..G.ny, i \in 1..G.nx} IN CHOOSE s \in S : \A t \in S : IF big THEN s >= t ELSE s <= t
VisitOut ==
  /\ ph = "visit" /\ ph' = "i"
  /\ \E o \in Outs :
       /\ o \in {"above", "below"} => NZ > 1
       /\ o \in {"west", "east"} => g # 7   \* (found out by a very long search only)
       /\ LET x == IF o = "west" THEN 16 * MinMax(G.x, FALSE) - 3 ELSE IF o = "east" THEN 16 * MinMax(G.x, TRUE) + 16 ELSE PosX(cur)
              y == IF o = "south" THEN 16 * MinMax(G.y, FALSE) - 16 ELSE IF o = "north" THEN 16 * MinMax(G.y, TRUE) + 5 ELSE PosY(cur)
              up == IF vert = "zdown" THEN -1 ELSE 1
              z == IF o = "above" THEN (IF ix = "mom5" THEN -32 ELSE 4 * DepC(cur, 1) - up * 16) ELSE IF o = "below" THEN 4 * DepC(cur, NZ) + up * 48 ELSE PosZ(cur)
          IN visits' = Append(visits, Record(x, y, z, IF o = "above" THEN "surface" ELSE "bounds", HomePlace))
  /\ cur' = NoCur /\ UNCHANGED <<g, vert, meth, ix, tau, seed>>

Table(f, t) == [k \in 1..NZ |-> [j \in 1..G.ny |-> [i \in 1..G.nx |-> Raw(f, t, k, j, i)]]]
Done ==
  /\ ph = "i" /\ Len(visits) = MaxV
  /\ ph' = "done"
  /\ Emit => PrintT("@@" \o ToJson([rect |-> G.rect, x |-> G.x, y |-> G.y, vert |-> vert, nz |-> NZ, meth |-> meth, ix |-> ix, tau |-> tau, grid |-> g,
                 depth |-> [k \in 1..NZ |-> [j \in 1..G.ny |-> [i \in 1..G.nx |-> Dpt(k, j, i)]]],
                 bx |-> BLon, by |-> BLat, bv |-> [j \in 1..Len(BLat) |-> [i \in 1..Len(BLon) |-> ((i * 7 + j * 5 + seed) % 11) - 3]],
                 data |-> [f \in 1..3 |-> [t \in 1..2 |-> Table(f, t - 1)]], visits |-> visits]))
  /\ UNCHANGED <<g, vert, meth, ix, tau, seed, cur, visits>>

Next == PickVert \/ PickMeth \/ PickIx \/ PickTau \/ PickI \/ PickJ \/ PickK \/ PickXE \/ PickZ \/ Visit \/ VisitOut \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ---------------------------- *)
At == ph = "visit"
\* the value on a face is the same from both sides
SameQ(a, b) == a.n * b.d = b.n * a.d
SameV(a, b) == \A m \in 1..Len(a) : SameQ(a[m], b[m])
Continuous == At /\ meth \in {"linear", "uv"} /\ ix # "pop" =>
  /\ cur.xs = 4 /\ cur.i < G.nx - 1 => SameV(Value(cur), Value([cur EXCEPT !.i = @ + 1, !.xs = 0]))
  /\ cur.et = 4 /\ cur.j < G.ny - 1 => SameV(Value(cur), Value([cur EXCEPT !.j = @ + 1, !.et = 0]))
  /\ cur.ze = 4 /\ cur.k < NZ - 1 => SameV(Value(cur), Value([cur EXCEPT !.k = @ + 1, !.ze = 0]))
Nodes == At /\ ix = "nemo" /\ meth \in {"linear", "nearest", "linear_invdist_land_tracer"} /\ cur.xs \in {0, 4} /\ cur.et \in {0, 4} /\ cur.ze \in {0, 4} =>
  Value(cur)[1].terms = <<>> /\ Value(cur)[1].n * 8 = Value(cur)[1].d * Dat(1, IF NZ = 1 THEN 1 ELSE cur.k + (cur.ze \div 4), cur.j + (cur.et \div 4), cur.i + (cur.xs \div 4))
Bounded == At /\ meth = "linear" /\ NZ = 1 =>
  LET S == {Dat(1, 1, cur.j + b, cur.i + a) : a, b \in {0, 1}}  v == Value(cur)[1]
  IN \E lo, hi \in S : lo * v.d <= 8 * v.n /\ 8 * v.n <= hi * v.d
\* C-grid: the flow through a face is the value given on that face
FaceFlow == At /\ meth = "cgrid_velocity" =>
  LET w == [cur EXCEPT !.xs = 0] e == [cur EXCEPT !.xs = 4] s == [cur EXCEPT !.et = 0] n == [cur EXCEPT !.et = 4]
      x == PX(cur) y == PY(cur) F == Flux(cur)
      Thr(p, a, b) == CUV(p)[1].n * (y[b] - y[a]) - CUV(p)[2].n * (x[b] - x[a])
  IN /\ Thr(w, 1, 4) = F[1] * Jac(w) /\ Thr(e, 2, 3) = F[2] * Jac(e)
     /\ -Thr(s, 1, 2) = F[3] * Jac(s) /\ -Thr(n, 4, 3) = F[4] * Jac(n)
Positive == At => Jac(cur) > 0
\* the search of the implementation for rectilinear axes finds the cell from every starting cell
RECURSIVE Up(_, _, _), Down(_, _, _)
Up(X, n, m) == IF m < Len(X) /\ n > 16 * X[m + 1] THEN Up(X, n, m + 1) ELSE m
Down(X, n, m) == IF m > 1 /\ n < 16 * X[m] THEN Down(X, n, m - 1) ELSE m
Search == At /\ G.rect => LET X == G.x[1] n == PosX(cur) IN
  \A m0 \in 1..(Len(X) - 1) : LET m == Down(X, n, Up(X, n, m0)) IN m < Len(X) /\ 16 * X[m] <= n /\ n <= 16 * X[m + 1]
=============================================================================
