-------------------------------- MODULE TraceWriter --------------------------------
(* op events drive the writer's state; a read event carries what is in the file and   *)
(* the data sets that were handed over (data[n], metric[f], slice data, ...).          *)
EXTENDS Writer, TraceBase
VARIABLE s

Has(e, name) == name \in DOMAIN e.vars
Eq(a, b) == a = b
\* arrays are recorded as [x][y][z] of rounded integers, equal up to one unit
Close3(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Len(a[i][j]) = Len(b[i][j]) /\ \A k \in 1..Len(a[i][j]) : Near(a[i][j][k], b[i][j][k], 1)
CloseZ0(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Near(a[i][j], b[i][j][1], 1)
\* only planes js
CloseAt(a, b, js) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in js : Len(a[i][j]) = Len(b[i][j]) /\ \A k \in 1..Len(a[i][j]) : Near(a[i][j][k], b[i][j][k], 1)
Holds(e, name, src, what) == IF ~Has(e, name) THEN {"missing_" \o what} ELSE Cl(Close3(e.vars[name], src), what)

\* metric of data set <<maps, field>> under old or new names, 2D or 3D
MetricFails(e, mf, newn) ==
  LET m == e.metric[mf[1]][mf[2]] IN
  UNION {LET c == m[i].comp  nm == MetricName(m[i].comp, m[i].post, newn) IN
         IF ~Has(e, nm) THEN {"missing_metric"}
         ELSE IF e.m2d /\ c = "dz" THEN Cl(Near(e.vars[nm], m[i].v[1][1][1], 1), "metric2d_dz")
         ELSE IF e.m2d THEN Cl(CloseZ0(e.vars[nm], m[i].v), "metric2d")
         ELSE Cl(Close3(e.vars[nm], m[i].v), IF m[i].post = "" THEN "metric" ELSE "metric_staggered") : i \in 1..Len(m)}
SliceFails(e, mf, newn) ==
  LET ss == e.slices[mf[1]][mf[2]] IN
  UNION {LET nm == SliceName(MetricName(ss[i].comp, "", newn), ss[i].off) IN
         IF ~Has(e, nm) THEN {"missing_slice_metric"}
         ELSE Cl(CloseAt(e.vars[nm], ss[i].v, {ss[i].planes[k] : k \in 1..Len(ss[i].planes)}), "slice_metric") : i \in 1..Len(ss)}

ReadFails(e) ==
  LET f == s.file IN
  (IF f.rz THEN Holds(e, "R", e.R, "grid_R") \cup Holds(e, "Z", e.Z, "grid_Z") ELSE {})
  \cup (IF f.extra # 0 THEN Holds(e, "extra", e.extra[f.extra], "written_data") ELSE {})
  \cup (IF f.maps > 0 THEN UNION {Holds(e, k, e.maps[f.maps][k], "map") : k \in DOMAIN e.maps[f.maps]} ELSE {})
  \cup (IF f.maps > 0 THEN Cl(Has(e, "MXG") /\ e.vars["MXG"] = 2 /\ Has(e, "MYG") /\ e.vars["MYG"] = e.nslice, "guard_sizes") ELSE {})
  \cup (IF f.attrs # 0 THEN UNION {Holds(e, k, e.attrs[f.attrs][k], "field_attribute") : k \in DOMAIN e.attrs[f.attrs]} ELSE {})
  \cup (IF f.old[1] > 0 THEN MetricFails(e, f.old, FALSE) \cup SliceFails(e, f.old, FALSE) ELSE {})
  \cup (IF f.new[1] > 0 THEN MetricFails(e, f.new, TRUE) \cup SliceFails(e, f.new, TRUE) ELSE {})
  \cup (IF f.sizes THEN Cl(Has(e, "nx") /\ e.vars["nx"] = e.shape[1] /\ e.vars["ny"] = e.shape[2] /\ e.vars["nz"] = e.shape[3], "sizes")
                        \cup Cl(Has(e, "ixseps1") /\ e.vars["ixseps1"] > e.shape[1] /\ e.vars["ixseps2"] > e.shape[1], "separatrix_outside")
                        \cup Cl(e.id # "" /\ e.id = e.id2 /\ \A i \in 1..Len(e.otherids) : e.otherids[i] # e.id, "grid_id")
                        \cup Cl(e.software = "zoidberg", "software")
    ELSE {})
  \* nothing in the wrong naming scheme
  \cup (IF f.sizes /\ f.new[1] = 0 /\ f.maps > 0 /\ e.pure THEN Cl(~Has(e, "g_xx") /\ ~Has(e, "gxx"), "old_names_only") ELSE {})
  \cup (IF f.sizes /\ f.old[1] = 0 /\ f.maps > 0 /\ e.pure THEN Cl(~Has(e, "g11") /\ ~Has(e, "g_22"), "new_names_only") ELSE {})

OpFails(e) == Cl((e.exc = "none") <=> Allowed(s, e), "accepted_" \o e.a)

Fails(e) == CASE e.ev = "reset" -> {}
              [] e.ev = "op" -> OpFails(e)
              [] e.ev = "read" -> ReadFails(e)
              [] e.ev = "uniform" -> Cl(\A i \in 1..Len(e.g) : Near(e.g[i], e.want, e.tol), e.what)
              [] e.ev = "same" -> Cl(e.a = e.b, e.what)
              [] OTHER -> ExcFails(e)
Init == l = 1 /\ s = Fresh(FALSE)
Next == LET e == T[l] IN
        /\ l <= Len(T) /\ Advance(Fails(e))
        /\ s' = CASE e.ev = "reset" -> Fresh(e.newn)
                  [] e.ev = "op" -> After(s, e)
                  [] OTHER -> s
Spec == Init /\ [][Next]_<<l, s>>
==============================================================================
