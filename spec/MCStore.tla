------------------------------- MODULE MCStore -------------------------------
(* Bounded instances of Store.tla.                                          *)
EXTENDS Store
U == 3600
\* Points on a line, two of them at the same place.
Line == << <<0>>, <<U>>, <<U>>, <<3 * U>>, <<4 * U>> >>
Line3 == << <<0>>, <<U>>, <<3 * U>> >>
Line4 == << <<0>>, <<U>>, <<U>>, <<4 * U>> >>
\* In the plane, and one of another dimension.
Plane4 == << <<0, 0>>, <<U, 0>>, <<0, 2 * U>>, <<U>> >>
Plane5 == << <<0, 0>>, <<U, 0>>, <<0, 2 * U>>, <<U, U>>, <<U>> >>
QLine == << <<0>>, <<2 * U>> >>
QPlane == << <<0, U>>, <<U>> >>
LibOps == {"add", "drainU", "drainO", "expire", "memtrim", "movevec", "distint", "knn", "nearc", "split", "merge"}
NetOps == {"add", "put", "query", "dist", "steal", "drainU", "expire"}
=============================================================================
