-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* Making Fields from datasets.  Two fields come from a dataset with       *)
(* coordinates (rectilinear with latitudes in either order, curvilinear),  *)
(* depth levels in either order or following the terrain, time slices      *)
(* distributed over files, missing values and bounds for the values.  The  *)
(* data are handed over as arrays, as an xarray Dataset, as NetCDF files   *)
(* (in many arrangements), or as files written by Parcels; a part may be   *)
(* selected by indices.  Loading takes the part, orders the latitudes and  *)
(* sets missing values to zero; the order of these steps, the arrangement  *)
(* and the loading mode make no difference: a value belongs to its         *)
(* coordinates.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Routes,   \* subset of {"data", "xarray", "netcdf", "parcels"}
          Loads,    \* subset of {"file", "deferred", "chunks", "auto"}  (how files are read)
          Geos,     \* subset of 1..8
          Verts,    \* subset of {"none", "one", "up", "down", "s"}
          Meshes,   \* subset of {"flat", "spherical"}
          Wide,     \* all arrangements of files (FALSE: the plain one, for checking the model)
          Seeds, MaxV, Emit

(* coordinates: lon and lat of the points of the dataset *)
GX == <<  <<0, 4, 8, 12>>, <<0, 4, 8, 12>>, <<-5, -3, 2, 3, 9>>, <<0, 4, 8, 12>>, <<1, 6, 9, 15>>, <<7>>, <<0, 4, 9, 12>>, <<0, 4, 8, 12>> >>
GY == <<  <<0, 3, 8>>, <<8, 3, 0>>, <<9, 7, 2, -4>>, <<0, 4, 8>>, <<10, 5, 1>>, <<4, 9, 11>>, <<0, 3, 8>>, <<0, 4, 8>> >>
IsCurv(g) == g \in {4, 5, 8}
NX(g) == Len(GX[g])
NY(g) == Len(GY[g])
LX(g, j, i) == 4 * GX[g][i] + (IF g = 8 THEN (IF j = 2 THEN 3 ELSE 0) ELSE IF IsCurv(g) THEN j + (IF i = 2 THEN j ELSE 0) ELSE 0)    \* quarters
LY(g, j, i) == 4 * GY[g][j] + (IF g = 8 THEN (IF i \in {2, 3} THEN i ELSE 0) ELSE IF IsCurv(g) THEN i ELSE 0)
DZ == <<1, 3, 7>>
NZ(v) == IF v \in {"none", "one"} THEN 1 ELSE 3
LZ(v, k, j, i) == CASE v = "none" -> 0 [] v = "one" -> 5 [] v = "up" -> DZ[k] [] v = "down" -> DZ[4 - k] [] v = "mid" -> IF k = 2 THEN 4 ELSE DZ[k] [] OTHER -> DZ[k] * (1 + ((i + 2 * j) % 3))
Axes == <<  <<0>>, <<0, 16>>, <<0, 8, 24>>, <<0, 8, 16, 32>>, <<8, 12, 20, 24>> >>
Parts == [n \in 1..4 |-> CASE n = 1 -> {<<1>>} [] n = 2 -> {<<2>>, <<1, 1>>} [] n = 3 -> {<<3>>, <<1, 2>>, <<2, 1>>, <<1, 1, 1>>} [] OTHER -> {<<4>>, <<1, 1, 1, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>}]

VARIABLES ph, how, geo, vert, mesh, seed, src, todo, arr, at, probes
vars == <<ph, how, geo, vert, mesh, seed, src, todo, arr, at, probes>>
None == <<>>

Raw(f, n, k, j, i) == ((f * 31 + n * 17 + k * 13 + j * 7 + i * 5 + n * i * 3 + k * j * 2 + f * i * j + seed * 11 + seed * i * n) % 97) - 25
Missing(f, n, k, j, i) == (n + 2 * k + 3 * j + 5 * i + f + seed) % 11 = 0
Bounded(v) == IF how.clip THEN (IF v < -15 \/ v > 60 THEN 0 ELSE v) ELSE v
Wanted(f, n, k, j, i) == IF Missing(f, n, k, j, i) THEN 0 ELSE Bounded(Raw(f, n, k, j, i))
Hole == 9999

Init == /\ ph = "route" /\ seed \in Seeds /\ geo \in {<<g, g>> : g \in Geos} /\ vert = <<"none", "none">> /\ mesh \in Meshes /\ how = [route |-> "data"]
        /\ src = None /\ todo = None /\ arr = None /\ at = None /\ probes = <<>>
\* where the data come from and how they are arranged: files (fform: "one" file for both fields, "list" of files, "glob" pattern, "sep"arate files for each field,
\* coordinates in files of their own, common ("dims") or for each field ("sepdims")), names of the dimensions (common or for each field), times
Route == /\ ph = "route"
         /\ \E r \in Routes, load \in Loads, clip \in BOOLEAN, names \in {"UV", "FH"} :
              how' = [route |-> r, load |-> IF r \in {"data", "xarray"} THEN "memory" ELSE load, clip |-> clip, names |-> names]
         /\ ph' = "files" /\ UNCHANGED <<geo, vert, mesh, seed, src, todo, arr, at, probes>>
Files == /\ ph = "files"
         /\ \E ff \in (IF how.route = "netcdf" THEN {"list", "glob", "sep", "dims", "sepdims"} ELSE {"list"}), df \in {"common", "pervar"}, tf \in {"var", "cal", "days", "stamps", "none"}, cs \in 1..4 :
            LET kinds == IF how.route # "netcdf" \/ (cs + seed) % 2 = 0 THEN <<"", "">> ELSE IF how.names = "UV" THEN <<"U", "V">> ELSE <<<<"V", "U">>, <<"U", "Kh_meridional">>, <<"Kh_zonal", "V">>>>[1 + (seed % 3)] IN
              /\ (how.route # "netcdf" => cs = 1)
              /\ (~Wide => cs = 1 /\ df = "common" /\ ff = "sep" /\ tf = "var" /\ how.clip /\ how.names = "FH")
              /\ (tf = "stamps" => how.route = "netcdf" /\ ff \in {"list", "sep"} /\ how.load \in {"file", "deferred"})
              /\ (tf = "days" => how.route \in {"netcdf", "parcels", "xarray"})
              /\ (how.route = "parcels" => df = "common")
              /\ how' = [route |-> how.route, load |-> how.load, clip |-> how.clip, names |-> how.names, fform |-> ff, dform |-> df, tform |-> tf, cs |-> cs, kinds |-> kinds]
         /\ ph' = "f1" /\ UNCHANGED <<geo, vert, mesh, seed, src, todo, arr, at, probes>>
Fixed == how.tform = "none"
F1 == /\ ph = "f1"
      /\ \E v \in Verts, a \in (IF Fixed THEN {1} ELSE 1..5) : \E p \in (IF how.route # "netcdf" THEN {<<Len(Axes[a])>>} ELSE Parts[Len(Axes[a])]) :
           /\ (~Wide => a = 2)
           /\ (v = "s" => how.route \in {"data", "netcdf"} /\ how.load \in {"memory", "file"} /\ ~IsCurv(geo[1]))
           /\ vert' = <<v, v>> /\ src' = <<[ax |-> a, parts |-> p], [ax |-> a, parts |-> p]>>
      /\ ph' = "f2" /\ UNCHANGED <<how, geo, mesh, seed, todo, arr, at, probes>>
\* the second field may have coordinates and times of its own, if these have their own names or files
OwnCoords == how.route \in {"data", "parcels"} \/ how.dform = "pervar" \/ how.fform \in {"sep", "sepdims"}
OwnTimes == how.route \in {"data", "parcels"} \/ how.fform \in {"sep", "sepdims"} \/ (how.route = "xarray" /\ how.dform = "pervar")
F2 == /\ ph = "f2"
      /\ \E g \in (IF OwnCoords /\ how.names = "FH" THEN {h \in Geos : IsCurv(h) = IsCurv(geo[1])} ELSE {geo[1]}), a \in (IF OwnTimes /\ ~Fixed /\ (how.load \in {"memory", "file"} \/ how.names = "FH") THEN 1..5 ELSE {src[1].ax}) :
           \E p \in (IF how.route # "netcdf" THEN {<<Len(Axes[a])>>} ELSE IF OwnTimes THEN Parts[Len(Axes[a])] ELSE {src[1].parts}) :
             /\ (~Wide => a = 2)
             /\ geo' = <<geo[1], g>> /\ vert' \in {vert} \cup (IF OwnCoords /\ how.names = "FH" /\ vert[1] = "up" THEN {<<"up", "mid">>} ELSE {}) /\ src' = <<src[1], [ax |-> a, parts |-> p]>>
             /\ (a = 1 <=> src[1].ax = 1) \/ {a, src[1].ax} = {1, 2}
             /\ (how.tform = "stamps" => Len(p) = Len(src[1].parts) /\ p = src[1].parts /\ a = src[1].ax)
             /\ (6 \in {geo[1], g} => how.load \in {"memory", "file", "deferred"} /\ (how.cs = 1 \/ how.route # "netcdf"))
      /\ ph' = "sub" /\ UNCHANGED <<how, mesh, seed, todo, arr, at, probes>>
\* a selection of indices (counted from 0), the same for both fields or for each
SubX == {None, <<0, 1>>, <<1, 2, 3>>, <<0, 2, 3>>, <<2>>}
SubY == {None, <<1, 2>>, <<0, 1>>, <<1>>}
SubZ == {None, <<0, 1>>, <<1, 2>>, <<1>>}
Single(q) == Len(q) = 1
SubOk(f, q) == /\ (how.route \notin {"netcdf", "parcels"} => q = [x |-> None, y |-> None, z |-> None])
               /\ (NX(geo[f]) = 1 => q.x = None)
               /\ (NZ(vert[f]) = 1 => q.z = None)
               /\ ((IsCurv(geo[f]) \/ vert[f] = "s" \/ how.load \in {"chunks", "auto"}) => ~Single(q.x) /\ ~Single(q.y))
               /\ (vert[f] = "s" => ~Single(q.z))
               /\ (how.load \in {"chunks", "auto"} => q.x # <<0, 2, 3>>)
Sub == /\ ph = "sub"
       /\ \E x1 \in SubX, y1 \in SubY, z1 \in SubZ, own \in {"same", "other"} :
            LET q1 == [x |-> x1, y |-> y1, z |-> z1]
                q2 == IF own = "same" THEN q1 ELSE [x |-> IF NX(geo[2]) = 1 \/ x1 # None THEN None ELSE <<1, 2>>, y |-> IF y1 = <<1, 2>> THEN <<0, 1>> ELSE <<1, 2>>, z |-> IF NZ(vert[2]) = 1 THEN None ELSE IF z1 = None THEN <<0, 1>> ELSE None]
            IN /\ (~Wide => x1 \in {None, <<0, 2, 3>>} /\ y1 \in {None, <<1, 2>>, <<1>>} /\ z1 \in {None, <<0, 1>>})
               /\ SubOk(1, q1) /\ SubOk(2, q2) /\ (own = "other" => how.route = "netcdf")
               /\ (own = "other" => how.names = "FH")
               /\ src' = <<[ax |-> src[1].ax, parts |-> src[1].parts, sub |-> q1], [ax |-> src[2].ax, parts |-> src[2].parts, sub |-> q2]>>
               /\ todo' = [f \in 1..2 |-> {"take", "blank"} \cup (IF ~IsCurv(geo[f]) /\ NY(geo[f]) > 1 /\ GY[geo[f]][1] > GY[geo[f]][2] THEN {"flip"} ELSE {})]
       /\ arr' = [f \in 1..2 |-> LET g == geo[f] v == vert[f] ax == Axes[src[f].ax] IN
                    [nx |-> NX(g), ny |-> NY(g), nz |-> NZ(v), nt |-> Len(ax), t |-> ax,
                     x |-> [j \in 1..NY(g) |-> [i \in 1..NX(g) |-> LX(g, j, i)]], y |-> [j \in 1..NY(g) |-> [i \in 1..NX(g) |-> LY(g, j, i)]],
                     z |-> [k \in 1..NZ(v) |-> [j \in 1..NY(g) |-> [i \in 1..NX(g) |-> LZ(v, k, j, i)]]],
                     v |-> [n \in 1..Len(ax) |-> [k \in 1..NZ(v) |-> [j \in 1..NY(g) |-> [i \in 1..NX(g) |-> IF Missing(f, n, k, j, i) THEN Hole ELSE Raw(f, n, k, j, i)]]]]]]
       /\ ph' = "load" /\ UNCHANGED <<how, geo, vert, mesh, seed, at, probes>>

(* the steps of loading *)
Pick(q, n) == IF q = None THEN [i \in 1..n |-> i] ELSE [i \in 1..Len(q) |-> q[i] + 1]
Reindex(a, I, J, K) == [a EXCEPT !.nx = Len(I), !.ny = Len(J), !.nz = Len(K),
                        !.x = [j \in 1..Len(J) |-> [i \in 1..Len(I) |-> a.x[J[j]][I[i]]]], !.y = [j \in 1..Len(J) |-> [i \in 1..Len(I) |-> a.y[J[j]][I[i]]]],
                        !.z = [k \in 1..Len(K) |-> [j \in 1..Len(J) |-> [i \in 1..Len(I) |-> a.z[K[k]][J[j]][I[i]]]]],
                        !.v = [n \in 1..a.nt |-> [k \in 1..Len(K) |-> [j \in 1..Len(J) |-> [i \in 1..Len(I) |-> a.v[n][K[k]][J[j]][I[i]]]]]]]
Ident(n) == [i \in 1..n |-> i]
Back(n) == [i \in 1..n |-> n + 1 - i]
Order == <<"take", "flip", "blank">>
Step == /\ ph = "load"
        /\ \E f \in 1..2, s \in {"take", "flip", "blank"} :
             /\ s \in todo[f] /\ (how.route = "parcels" /\ s = "take" => "flip" \notin todo[f])    \* (files written by Parcels have the latitudes in order)
             /\ (Emit => \A g \in 1..2 : g < f => todo[g] = {}) /\ (Emit => \A m, n \in 1..3 : m < n /\ Order[n] = s => how.route = "parcels" \/ Order[m] \notin todo[f])
             /\ todo' = [todo EXCEPT ![f] = @ \ {s}]
             /\ arr' = [arr EXCEPT ![f] =
                  CASE s = "take" -> LET q == src[f].sub fl == how.route # "parcels" /\ "flip" \notin todo[f] /\ ~IsCurv(geo[f]) /\ NY(geo[f]) > 1 /\ GY[geo[f]][1] > GY[geo[f]][2]
                                         J == Pick(q.y, @.ny)   JJ == IF fl THEN [n \in 1..Len(J) |-> @.ny + 1 - J[Len(J) + 1 - n]] ELSE J    \* indices count in the file
                                     IN Reindex(@, Pick(q.x, @.nx), JJ, Pick(q.z, @.nz))
                    [] s = "flip" -> Reindex(@, Ident(@.nx), Back(@.ny), Ident(@.nz))
                    [] OTHER -> LET a == @ IN [a EXCEPT !.v = [n \in 1..a.nt |-> [k \in 1..a.nz |-> [j \in 1..a.ny |-> [i \in 1..a.nx |-> IF a.v[n][k][j][i] = Hole THEN 0 ELSE Bounded(a.v[n][k][j][i])]]]]]]
        /\ UNCHANGED <<ph, how, geo, vert, mesh, seed, src, at, probes>>
Ready == ph = "load" /\ todo[1] = {} /\ todo[2] = {} /\ ph' = "go" /\ UNCHANGED <<how, geo, vert, mesh, seed, src, todo, arr, at, probes>>

(* particles sample the fields in the middle of cells, or at points *)
Lim(i, n) == IF i > n THEN n ELSE i
Mean(h, F(_, _, _, _), n, k, j, i, a) == LET B == {0, 1}  S[q \in 0..15] == (LET u == q % 2  d == q \div 2  v == d % 2  e == q \div 4  w == e % 2  r == q \div 8
                        IN F(Lim(n + r * h, a.nt), Lim(k + w, a.nz), Lim(j + v, a.ny), Lim(i + u, a.nx))) + (IF q = 0 THEN 0 ELSE S[q - 1]) IN S[15]
Go == /\ ph = "go" /\ Len(probes) < MaxV /\ at = None
      /\ \E f \in 1..2, n \in 1..4, k \in 1..3, h \in 0..1 :
           /\ n <= arr[f].nt /\ k <= arr[f].nz /\ (k > 1 => k < arr[f].nz) /\ (h = 1 => n < arr[f].nt)
           /\ at' = [f |-> f, n |-> n, k |-> k, h |-> h]
      /\ UNCHANGED <<ph, how, geo, vert, mesh, seed, src, todo, arr, probes>>
Pos(p, j, i) == LET a == arr[p.f]  X(n, k, jj, ii) == a.x[jj][ii]  Y(n, k, jj, ii) == a.y[jj][ii]  Z(n, k, jj, ii) == a.z[k][jj][ii]  T(n, k, jj, ii) == a.t[n]  V(n, k, jj, ii) == a.v[n][k][jj][ii] IN
       [f |-> p.f, out |-> FALSE, x |-> Mean(p.h, X, p.n, p.k, j, i, a), y |-> Mean(p.h, Y, p.n, p.k, j, i, a), z |-> Mean(p.h, Z, p.n, p.k, j, i, a), t |-> Mean(p.h, T, p.n, p.k, j, i, a), v |-> Mean(p.h, V, p.n, p.k, j, i, a)]
\* fields that are loaded in parts of their time series need to have slices around the time even when they are not sampled
Inside(p) == how.load \in {"memory", "file"} \/ how.tform \in {"stamps", "none"} \/ \A f \in 1..2 : arr[f].nt <= 2 \/ (16 * arr[f].t[1] <= p.t /\ p.t <= 16 * arr[f].t[arr[f].nt])
Visit == /\ ph = "go" /\ at # None
         /\ \E j \in 1..4, i \in 1..5 : /\ (j < arr[at.f].ny \/ j = 1) /\ (i < arr[at.f].nx \/ i = 1)
              /\ probes' = IF Inside(Pos(at, j, i)) THEN Append(probes, Pos(at, j, i)) ELSE probes
         /\ at' = None /\ UNCHANGED <<ph, how, geo, vert, mesh, seed, src, todo, arr>>
\* at places of the dataset that were not selected there is an error; before the first and after the last slice as well, if the time is given
Row(g, j) == IF how.route = "parcels" /\ ~IsCurv(g) /\ NY(g) > 1 /\ GY[g][1] > GY[g][2] THEN NY(g) + 1 - j ELSE j    \* rows of the file
Beyond == /\ ph = "go" /\ at # None
          /\ \E side \in 1..6 : LET f == at.f  q == src[f].sub  g == geo[f]  r == Pos(at, 1, 1) IN
               /\ (side <= 2 => q.x # None /\ Len(q.x) > 1 /\ ~IsCurv(g)) /\ (side = 1 => q.x[1] > 0) /\ (side = 2 => q.x[Len(q.x)] < NX(g) - 1)
               /\ (side \in {3, 4} => q.y # None /\ Len(q.y) > 1 /\ ~IsCurv(g)) /\ (side = 3 => q.y[1] > 0) /\ (side = 4 => q.y[Len(q.y)] < NY(g) - 1)
               /\ (side \in {5, 6} => arr[f].nt > 1 /\ how.tform \in {"var", "cal", "days"})
               /\ probes' = Append(probes, CASE side = 1 -> [r EXCEPT !.out = TRUE, !.x = 16 * LX(g, 1, 1)] [] side = 2 -> [r EXCEPT !.out = TRUE, !.x = 16 * LX(g, 1, NX(g))]
                                             [] side = 3 -> [r EXCEPT !.out = TRUE, !.y = 16 * LY(g, Row(g, 1), 1)] [] side = 4 -> [r EXCEPT !.out = TRUE, !.y = 16 * LY(g, Row(g, NY(g)), 1)]
                                             [] side = 5 -> [r EXCEPT !.out = TRUE, !.t = 16 * (arr[f].t[1] - 2)] [] OTHER -> [r EXCEPT !.out = TRUE, !.t = 16 * (arr[f].t[arr[f].nt] + 2)])
          /\ at' = None /\ UNCHANGED <<ph, how, geo, vert, mesh, seed, src, todo, arr>>
Source(f) == LET g == geo[f] v == vert[f] ax == Axes[src[f].ax] IN
   [nx |-> NX(g), ny |-> NY(g), nz |-> NZ(v), curv |-> IsCurv(g), vert |-> v, times |-> ax, parts |-> src[f].parts, sub |-> src[f].sub,
    lon |-> [j \in 1..NY(g) |-> [i \in 1..NX(g) |-> LX(g, j, i)]], lat |-> [j \in 1..NY(g) |-> [i \in 1..NX(g) |-> LY(g, j, i)]],
    depth |-> [k \in 1..NZ(v) |-> [j \in 1..NY(g) |-> [i \in 1..NX(g) |-> LZ(v, k, j, i)]]],
    data |-> [n \in 1..Len(ax) |-> [k \in 1..NZ(v) |-> [j \in 1..NY(g) |-> [i \in 1..NX(g) |-> IF Missing(f, n, k, j, i) THEN Hole ELSE Raw(f, n, k, j, i)]]]]]
Done == /\ ph = "go" /\ Len(probes) = MaxV /\ at = None /\ ph' = "done"
        /\ Emit => PrintT("@@" \o ToJson([how |-> how, mesh |-> mesh, seed |-> seed, same |-> (geo[1] = geo[2]), src |-> <<Source(1), Source(2)>>, probes |-> probes]))
        /\ UNCHANGED <<how, geo, vert, mesh, seed, src, todo, arr, at, probes>>
Next == Route \/ Files \/ F1 \/ F2 \/ Sub \/ Step \/ Ready \/ Go \/ Visit \/ Beyond \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ---------------------------- *)
\* during loading, in any order of the steps, each value stays at its coordinates
Home(f, a, n, k, j, i) == CHOOSE c \in (1..NY(geo[f])) \X (1..NX(geo[f])) : LX(geo[f], c[1], c[2]) = a.x[j][i] /\ LY(geo[f], c[1], c[2]) = a.y[j][i]
Faithful == ph = "load" => \A f \in 1..2 : LET a == arr[f] IN \A n \in 1..a.nt, k \in 1..a.nz, j \in 1..a.ny, i \in 1..a.nx :
   LET c == Home(f, a, n, k, j, i) K == {kk \in 1..NZ(vert[f]) : LZ(vert[f], kk, c[1], c[2]) = a.z[k][j][i]} IN
     /\ Cardinality(K) = 1
     /\ \A kk \in K : a.v[n][k][j][i] = IF "blank" \in todo[f] THEN (IF Missing(f, n, kk, c[1], c[2]) THEN Hole ELSE Raw(f, n, kk, c[1], c[2])) ELSE Wanted(f, n, kk, c[1], c[2])
\* at the end, all selected points are there and latitudes increase on rectilinear grids
Complete == (ph = "load" /\ todo[1] = {} /\ todo[2] = {}) => \A f \in 1..2 : LET a == arr[f] q == src[f].sub g == geo[f] IN
   /\ a.nx = Len(Pick(q.x, NX(g))) /\ a.ny = Len(Pick(q.y, NY(g))) /\ a.nz = Len(Pick(q.z, NZ(vert[f])))
   /\ ~IsCurv(g) => \A j \in 1..(a.ny - 1) : a.y[j][1] < a.y[j + 1][1]
   /\ \A j \in 1..Len(Pick(q.y, NY(g))), i \in 1..Len(Pick(q.x, NX(g))) : \E jj \in 1..a.ny, ii \in 1..a.nx : a.x[jj][ii] = LX(g, Pick(q.y, NY(g))[j], Pick(q.x, NX(g))[i]) /\ a.y[jj][ii] = LY(g, Row(g, Pick(q.y, NY(g))[j]), Pick(q.x, NX(g))[i])
=============================================================================
