---------------------------------- MODULE Service ----------------------------------
(* Fields and field lines obtained from an external service: requests carry Cartesian    *)
(* points and a configuration; answers are Cartesian components.  A request that fails is  *)
(* repeated once.  A field tabulated on a mesh is kept in a file and the service is not     *)
(* asked again for the same table.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* angle in quarter turns: cosine and sine
Cos4(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin4(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Cart(r, k, z) == <<r * Cos4(k), r * Sin4(k), z>>
\* the test service: components are linear in the position, the configuration is added to Bz
Answer(M, p, conf) == <<M[1][1] * p[1] + M[1][2] * p[2] + M[1][3] * p[3],
                        M[2][1] * p[1] + M[2][2] * p[2] + M[2][3] * p[3],
                        M[3][1] * p[1] + M[3][2] * p[2] + M[3][3] * p[3] + conf>>
\* cylindrical components at quarter turn k
Cyl(b, k) == <<b[1] * Cos4(k) + b[2] * Sin4(k), b[2] * Cos4(k) - b[1] * Sin4(k), b[3]>>
FieldAt(M, r, k, z, conf) == Cyl(Answer(M, Cart(r, k, z), conf), k)
\* a request: number of attempts the service sees and whether the caller gets an answer
MaxTry == 2
Attempts(fails, cached) == IF cached THEN 0 ELSE IF fails >= MaxTry THEN MaxTry ELSE fails + 1
Succeeds(fails, cached) == cached \/ fails < MaxTry
==============================================================================
