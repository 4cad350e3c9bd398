-------------------------------- MODULE Halo --------------------------------
(***************************************************************************)
(* Periodic halos.  A halo continues the fields periodically: a halo of    *)
(* width h gives the grid h further points on either side, with the        *)
(* coordinates shifted by the period (the extent plus the first spacing)   *)
(* and the data of the points on the other side.  Halos are added in both  *)
(* directions at once or one after the other, with their own widths, to    *)
(* all fields of the set, whatever the grid, the layout and the loading.   *)
(* Particles then visit places, given as a cell of the extended grid and a *)
(* position in it (quarters), or places beyond the halo, at some time.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Grids,    \* grids to choose from
          Verts,    \* subset of {"none", "z", "s"}
          Loads,    \* subset of {"memory", "file", "deferred", "chunks", "auto"}
          Meshes,   \* subset of {"flat", "spherical"}
          Widths,   \* widths of halos
          Seeds, MaxV, Emit

Axis(X, Y) == [rect |-> TRUE, nx |-> Len(X), ny |-> Len(Y), x |-> [j \in 1..Len(Y) |-> X], y |-> [j \in 1..Len(Y) |-> [i \in 1..Len(X) |-> Y[j]]]]
Curv(nx, ny, fx(_, _), fy(_, _)) == [rect |-> FALSE, nx |-> nx, ny |-> ny,
       x |-> [j \in 1..ny |-> [i \in 1..nx |-> fx(i - 1, j - 1)]], y |-> [j \in 1..ny |-> [i \in 1..nx |-> fy(i - 1, j - 1)]]]
Lib(g) ==
  CASE g = 1 -> Axis(<<0, 4, 8, 12>>, <<0, 4, 8>>)
    [] g = 2 -> Axis(<<-3, -1, 2, 6, 7>>, <<1, 2, 4, 9>>)
    [] g = 3 -> Axis(<<0, 3>>, <<2, 4, 6, 8, 10, 12>>)
    [] g = 4 -> Axis(<<0, 60, 120, 180, 240, 300>>, <<-40, 0, 40>>)     \* all around the globe
    [] g = 5 -> LET fx(i, j) == 4 * i + j  fy(i, j) == 3 * j IN Curv(4, 3, fx, fy)   \* sheared
    [] g = 6 -> LET fx(i, j) == 6 * i + (IF j = 1 THEN i ELSE 0)  fy(i, j) == 5 * j IN Curv(3, 4, fx, fy)
    [] g = 7 -> LET fx(i, j) == 3 * i + i * i  fy(i, j) == 2 * j + 3 * j * j IN Curv(4, 3, fx, fy)
    [] g = 8 -> Axis(<<0, 30, 60, 90, 120, 150, 180, 210, 240, 270, 300, 330>>, <<-60, -20, 0, 30>>)
GLib == [n \in 1..8 |-> Lib(n)]

VARIABLES ph, g, vert, load, mesh, calls, hx, hy, seed, visits
vars == <<ph, g, vert, load, mesh, calls, hx, hy, seed, visits>>
G == GLib[g]
NZ == IF vert = "none" THEN 1 ELSE 3
Deps == <<0, 2, 6>>
Sig(i, j) == 1 + ((i + 2 * j) % 3)

\* point i (1..n inside, further ones in the halo): the point of the grid it copies, and the number of periods it is shifted
Wrap(i, n) == 1 + ((i - 1) % n)
Shift(i, n) == ((i - 1) - ((i - 1) % n)) \div n
PerX(j) == G.x[j][G.nx] - 2 * G.x[j][1] + G.x[j][2]
PerY(i) == G.y[G.ny][i] - 2 * G.y[1][i] + G.y[2][i]
NodeX(j, i) == G.x[Wrap(j, G.ny)][Wrap(i, G.nx)] + Shift(i, G.nx) * PerX(Wrap(j, G.ny))
NodeY(j, i) == G.y[Wrap(j, G.ny)][Wrap(i, G.nx)] + Shift(j, G.ny) * PerY(Wrap(i, G.nx))
Raw(f, t, k, j, i) == ((f * 5 + t * 3 + k * 7 + j * 11 + i * 13 + i * j * 3 + k * i * 2 + t * i * 4 + seed * 17 + seed * i * 5 + seed * j) % 19) - 8
Data(f, t, k, j, i) == Raw(f, t, k, Wrap(j, G.ny), Wrap(i, G.nx))
Dpt(k, j, i) == IF vert = "s" THEN Deps[k] * Sig(Wrap(i, G.nx), Wrap(j, G.ny)) ELSE Deps[k]

\* p: cell [i, j, k], position xs, et, ze (quarters), time t: slices at 0, 8, 16
W2(p) == <<(4 - p.xs) * (4 - p.et), p.xs * (4 - p.et), p.xs * p.et, (4 - p.xs) * p.et>>
Bil(p, v(_, _)) == LET w == W2(p) IN w[1] * v(p.j, p.i) + w[2] * v(p.j, p.i + 1) + w[3] * v(p.j + 1, p.i + 1) + w[4] * v(p.j + 1, p.i)
PosX(p) == LET v(j, i) == NodeX(j, i) IN Bil(p, v)
PosY(p) == LET v(j, i) == NodeY(j, i) IN Bil(p, v)
DepC(p, k) == LET v(j, i) == Dpt(k, j, i) IN Bil(p, v)
PosZ(p) == IF NZ = 1 THEN 0 ELSE (4 - p.ze) * DepC(p, p.k) + p.ze * DepC(p, p.k + 1)   \* sixty-fourths
At(f, p, k) == LET r == p.t % 8 m == p.t \div 8 v(j, i) == (8 - r) * Data(f, m, k, j, i) + r * (IF r = 0 THEN 0 ELSE Data(f, m + 1, k, j, i)) IN Bil(p, v)
\* 512ths
Value(f, p) == IF NZ = 1 THEN 4 * At(f, p, 1) ELSE (4 - p.ze) * At(f, p, p.k) + p.ze * At(f, p, p.k + 1)

Min(a, b) == IF a < b THEN a ELSE b
Init == /\ ph = "halo" /\ g \in Grids /\ vert \in Verts /\ load \in Loads /\ mesh \in Meshes /\ seed \in Seeds /\ calls = <<>> /\ hx = 0 /\ hy = 0 /\ visits = <<>>
        /\ (g \in {4, 8} => mesh = "spherical") /\ (vert = "s" => load = "memory")
\* one call of add_periodic_halo; a direction is extended once only
Halo == /\ ph = "halo" /\ Len(calls) < 2
        /\ \E z, m \in BOOLEAN, w \in Widths :
             /\ z \/ m
             /\ (g = 4 /\ z => w = 1) /\ (g = 8 /\ z => w <= 2)    \* (wide halos around the globe, more than 450 degrees in all, defeat the search on the sphere)
             /\ (z => hx = 0) /\ (m => hy = 0)
             /\ hx' = (IF z THEN Min(w, G.nx) ELSE hx) /\ hy' = (IF m THEN Min(w, G.ny) ELSE hy)
             /\ calls' = Append(calls, [z |-> z, m |-> m, w |-> w])
        /\ UNCHANGED <<ph, g, vert, load, mesh, seed, visits>>
Start == ph = "halo" /\ calls # <<>> /\ ph' = "go" /\ UNCHANGED <<g, vert, load, mesh, calls, hx, hy, seed, visits>>
Report(p) == [x |-> PosX(p), y |-> PosY(p), z |-> PosZ(p), t |-> p.t, out |-> FALSE, f |-> Value(1, p), h |-> Value(2, p)]
\* few choices at a time: sides first
Cols == {1 - hx, 0, 1, G.nx - 1, G.nx, G.nx + hx - 1, 1 + ((2 * seed) % (G.nx - 1))} \cap ((1 - hx)..(G.nx + hx - 1))
Rows == {1 - hy, 0, 1, G.ny - 1, G.ny, G.ny + hy - 1} \cap ((1 - hy)..(G.ny + hy - 1))
Visit == /\ ph = "go" /\ Len(visits) < MaxV
         /\ \E i \in Cols, j \in Rows, q \in 0..2 :
              LET xs == <<0, 1, 3, 4>>[1 + ((q + Len(visits)) % 4)]  et == <<0, 1, 3, 4>>[1 + ((q * 3 + i + j + 40) % 4)]  t == <<0, 5, 8, 13>>[1 + ((q + i + 2 * j + seed + 40) % 4)]
                  p == [i |-> i, j |-> j, k |-> IF NZ = 1 THEN 1 ELSE 1 + ((i + t + seed) % 2), xs |-> xs, et |-> et, ze |-> IF NZ = 1 THEN 0 ELSE 1 + ((j + xs) % 3), t |-> t]
              IN visits' = Append(visits, Report(p))
         /\ UNCHANGED <<ph, g, vert, load, mesh, calls, hx, hy, seed>>
\* beyond the halo (not on grids around the globe with a halo in that direction; not sideways on curvilinear grids on the sphere, where the search for a place goes round and round before it ends in an error)
Beyond == /\ ph = "go" /\ Len(visits) < MaxV /\ g \notin {4, 8}
          /\ \E side \in (IF G.rect \/ mesh = "flat" THEN 1..4 ELSE 3..4), d \in (IF G.rect THEN {1, 24, 900} ELSE {900}) :
               LET t == 13 - side  i == IF side = 2 THEN G.nx + hx - 1 ELSE 1 - hx   j == IF side = 4 THEN G.ny + hy - 1 ELSE 1 - hy
                   p == [i |-> i, j |-> j, k |-> 1, xs |-> IF side = 2 THEN 4 ELSE IF side = 1 THEN 0 ELSE 2, et |-> IF side = 4 THEN 4 ELSE IF side = 3 THEN 0 ELSE 2, ze |-> IF NZ = 1 THEN 0 ELSE 1, t |-> t]
                   r == Report(p)
               IN visits' = Append(visits, [r EXCEPT !.out = TRUE, !.x = @ + (CASE side = 1 -> -d [] side = 2 -> d [] OTHER -> 0), !.y = @ + (CASE side = 3 -> -d [] side = 4 -> d [] OTHER -> 0)])
          /\ UNCHANGED <<ph, g, vert, load, mesh, calls, hx, hy, seed>>
Done == /\ ph = "go" /\ Len(visits) = MaxV /\ ph' = "done"
        /\ Emit => PrintT("@@" \o ToJson([rect |-> G.rect, nx |-> G.nx, ny |-> G.ny, nz |-> NZ, x |-> G.x, y |-> G.y, vert |-> vert, load |-> load, mesh |-> mesh, calls |-> calls, seed |-> seed,
                    depth |-> [k \in 1..NZ |-> [j \in 1..G.ny |-> [i \in 1..G.nx |-> Dpt(k, j, i)]]],
                    data |-> [f \in 1..2 |-> [t \in 1..3 |-> [k \in 1..NZ |-> [j \in 1..G.ny |-> [i \in 1..G.nx |-> Raw(f, t - 1, k, j, i)]]]]], visits |-> visits]))
        /\ UNCHANGED <<g, vert, load, mesh, calls, hx, hy, seed, visits>>
Next == Halo \/ Start \/ Visit \/ Beyond \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ---------------------------- *)
\* shifting a place by whole periods changes its coordinates by the period and nothing else
PlacesAt(i, j) == [i : {i}, j : {j}, k : {1}, xs : {1}, et : {3}, ze : IF NZ = 1 THEN {0} ELSE {1}, t : {5}]
Periodic == ph = "go" => \A i \in 1..(G.nx - 1), j \in 1..(G.ny - 1), s \in {-1, 1} : \A p \in PlacesAt(i, j) :
  LET q == [p EXCEPT !.i = @ + s * G.nx] r == [p EXCEPT !.j = @ + s * G.ny] IN
  /\ Value(1, q) = Value(1, p) /\ Value(1, r) = Value(1, p) /\ PosZ(q) = PosZ(p)
  /\ G.rect => PosX(q) = PosX(p) + 16 * s * PerX(1) /\ PosY(q) = PosY(p) /\ PosY(r) = PosY(p) + 16 * s * PerY(1)
\* the coordinates go on over the seams, cell by cell
Ordered == G.rect => \A i \in (-G.nx)..(2 * G.nx) : NodeX(1, i) < NodeX(1, i + 1)
=============================================================================
