------------------------ MODULE PrimaryRecordTrace ------------------------
(* Validates what real records report after any subset of quantities was set.  *)
EXTENDS ParticleKinematics, TraceLib
VARIABLES i
Set(o) == {o.sets[k] : k \in 1 .. Len(o.sets)}
Tol == 3
VecNear(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : Near(a[k], b[k], tol)
QTol(q) == IF q = "time" THEN 20 ELSE Tol

\* one quantity: either an error, allowed only when not derivable, or the true value
\* a momentum of zero (or two equal points) leaves the direction undefined
NoDir(s, S) == "dir" \notin S /\ (("mom" \in S /\ s.p = 0) \/ ({"x0", "vtx"} \subseteq S /\ s.L = 0))
QOk(s, S, q, v) == IF NoDir(s, S) /\ q \in {"dir", "poca", "vdist", "idist"} THEN TRUE
                   ELSE IF v.threw THEN ~Derivable(S, q)
                   ELSE VecNear(v.val, True(s, q), QTol(q))
QNames(kind) == IF kind = "primary"
    THEN <<"mass", "energy", "ke", "dir", "mom", "len", "x0", "vtx", "poca", "vdist", "idist", "time", "four">>
    ELSE <<"mass", "energy", "ke", "dir", "mom", "four">>
RECURSIVE Each(_, _, _, _, _)
Each(s, S, o, qs, tag) == IF qs = <<>> THEN ""
    ELSE IF QOk(s, S, Head(qs), o[Head(qs)]) THEN Each(s, S, o, Tail(qs), tag) ELSE tag \o Head(qs)

Kin == {"mass", "energy", "ke", "dir", "mom"}
FinalNeeds(S) == DVtx(S) /\ DX0(S) /\ DMass(S) /\ DFour(S) /\ DTime(S)
\* Finalize: all or error; every field carries the true value
VFinal(s, S, f, params) == IF f.threw THEN (IF FinalNeeds(S) THEN "finalize-refused" ELSE "")
    ELSE FirstBad(<<
      <<"finalize-x0", VecNear(f.x0, True(s, "x0"), Tol)>>, <<"finalize-vtx", VecNear(f.vtx, True(s, "vtx"), Tol)>>,
      <<"finalize-mass", VecNear(f.mass, True(s, "mass"), Tol)>>, <<"finalize-four", VecNear(f.four, True(s, "four"), Tol)>>,
      <<"finalize-time", VecNear(f.time, True(s, "time"), 20)>>, <<"finalize-t0", f.t0 = Sc(s.t0)>>,
      <<"finalize-hel", f.hel = Sc(s.hel)>>, <<"finalize-id", f.idok>>, <<"finalize-type", f.typeok>>,
      <<"finalize-params", f.params = params>> >>)
\* FinalizeAvailable: derivable fields true, the others untouched (driver marks untouched as empty)
Avail(s, S, q, v, tol) == IF v = <<>> THEN ~Derivable(S, q) ELSE VecNear(v, True(s, q), tol)
VAvail(s, S, f) == FirstBad(<<
      <<"available-threw", ~f.threw>>,
      <<"available-x0", Avail(s, S, "x0", f.x0, Tol)>>, <<"available-vtx", Avail(s, S, "vtx", f.vtx, Tol)>>,
      <<"available-mass", Avail(s, S, "mass", f.mass, Tol)>>, <<"available-energy", Avail(s, S, "energy", f.energy, Tol)>>,
      <<"available-mom", Avail(s, S, "mom", f.mom, Tol)>>, <<"available-time", Avail(s, S, "time", f.time, 20)>>,
      <<"available-t0", f.t0 = Sc(s.t0)>>, <<"available-hel", f.hel = Sc(s.hel)>>, <<"available-id", f.idok>>, <<"available-type", f.typeok>> >>)
\* GetParticle: derivable fields or zero
Part(s, S, q, v, z) == IF VecNear(v, z, 0) THEN ~Derivable(S, q) \/ VecNear(True(s, q), z, Tol) ELSE VecNear(v, True(s, q), Tol)
Z1 == <<0>>
Z3 == <<0, 0, 0>>
Z4 == <<0, 0, 0, 0>>
VPart(s, S, p, primary) == FirstBad(<<
      <<"particle-mass", Part(s, S, "mass", p.mass, Z1)>>, <<"particle-four", Part(s, S, "four", p.four, Z4)>>,
      <<"particle-x0", IF primary THEN Part(s, S, "x0", p.x0, Z3) ELSE p.x0 = VSc(s.x0)>>,
      <<"particle-len", IF primary THEN Part(s, S, "len", p.len, Z1) ELSE TRUE>>,
      <<"particle-hel", p.hel = Sc(s.hel)>>, <<"particle-id", p.idok>> >>)

VPrimary(o) == LET s == Scenarios[o.scn] S == Set(o)
    r == Each(s, S, o.q, QNames("primary"), "get-")
    f == VFinal(s, S, o.fin, o.params) a == VAvail(s, S, o.avail) p == VPart(s, S, o.part, TRUE)
    r2 == Each(s, S, o.q2, QNames("primary"), "get-again-")
  IN IF r # "" THEN r ELSE IF f # "" THEN f ELSE IF a # "" THEN a ELSE IF p # "" THEN p ELSE IF r2 # "" THEN r2
     ELSE FirstBad(<< <<"set-foreign-particle-accepted", o.foreign>>,
                      <<"helicity", o.hel = Sc(s.hel)>>, <<"initial-time", o.t0 = Sc(s.t0)>>,
                      <<"override-time", o.overtime = Sc(77)>> >>)

\* the same rules for an outgoing particle (kinematic quantities only)
VSecondary(o) == LET s == Scenarios[o.scn] S == Set(o)
    r == Each(s, S, o.q, QNames("secondary"), "sec-get-")
    p == VPart(s, S, o.part, FALSE)
  IN IF r # "" THEN r ELSE IF p # "" THEN p
     ELSE IF o.fin.threw THEN (IF DMass(S) /\ DFour(S) THEN "sec-finalize-refused" ELSE "")
     ELSE FirstBad(<< <<"sec-finalize-mass", VecNear(o.fin.mass, True(s, "mass"), Tol)>>,
                      <<"sec-finalize-four", VecNear(o.fin.four, True(s, "four"), Tol)>>,
                      <<"sec-finalize-hel", o.fin.hel = Sc(s.hel)>>, <<"sec-finalize-id", o.fin.idok>>,
                      <<"sec-foreign-particle-accepted", o.foreign>> >>)
Verdict(o) == IF o.op = "primary" THEN VPrimary(o) ELSE VSecondary(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, Verdict(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
