-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Complete runs of the atomic, diatomic and spherically averaged programs *)
(* as a user starts them.  The state is what earlier runs have left: the   *)
(* energies they reported and the checkpoints they saved.  Energies are    *)
(* integers in microhartree, fields in 1e-4 atomic units.                  *)
(*                                                                         *)
(* A system: k "at" (nucleus zc), "mo" (nuclei z1, z2 at distance R(rb)),  *)
(* "em" (nucleus zc between z1 and z2 at distance R(rb) each); na, nb      *)
(* electrons; method me; fields ez, qz, bz; confinement cf; occupations oc *)
(* as rows <<alpha, beta, l or parity, m>> (none: Aufbau); lm, mm: the     *)
(* angular momenta its basis needs.                                        *)
(* A presentation: how the run asks for it.                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES mem, files
rvars == <<mem, files>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
InvR == <<1000000, 714286, 500000, 400000>>      \* 1/R for R = 1.0, 1.4, 2.0, 2.5
Nel(s) == s.na + s.nb
OneElectron(s) == Nel(s) = 1
NoField(s) == s.ez = 0 /\ s.qz = 0 /\ s.bz = 0
Plain(s) == s.k = "at" /\ NoField(s) /\ s.cf = 0
HF == "HF"
(* ---- descriptions of one and the same system ---- *)
FlipM(oc) == [i \in 1..Len(oc) |-> <<oc[i][1], oc[i][2], oc[i][3], -oc[i][4]>>]
Reflect(s) == [s EXCEPT !.z1 = s.z2, !.z2 = s.z1, !.ez = -s.ez]       \* z -> -z
Turn(s) == [s EXCEPT !.oc = FlipM(s.oc)]                              \* m -> -m, no magnetic field
Orbit(s) == LET A == {s, Reflect(s)} IN IF s.bz = 0 THEN A \cup {Turn(x) : x \in A} ELSE A
Same(s, t) == t \in Orbit(s)
(* ---- energies known exactly (hydrogenic) or from the literature (Hartree-Fock limits; NIST atomic reference data) ---- *)
None == 2000000000
LitHF(z, a, b) == CASE <<z, a, b>> = <<2, 1, 1>> -> -2861680 [] <<z, a, b>> = <<3, 1, 1>> -> -7236415 [] <<z, a, b>> = <<4, 1, 1>> -> -13611299
   [] <<z, a, b>> = <<3, 2, 1>> -> -7432751 [] <<z, a, b>> = <<4, 2, 2>> -> -14573023 [] <<z, a, b>> = <<7, 5, 2>> -> -54404548 [] <<z, a, b>> = <<10, 5, 5>> -> -128547098
   [] OTHER -> None
LitLDA(z, a, b) == CASE <<z, a, b>> = <<1, 1, 0>> -> -478671 [] <<z, a, b>> = <<2, 1, 1>> -> -2834836 [] <<z, a, b>> = <<3, 2, 1>> -> -7343957 [] <<z, a, b>> = <<4, 2, 2>> -> -14447209
   [] <<z, a, b>> = <<7, 5, 2>> -> -54136799 [] <<z, a, b>> = <<10, 5, 5>> -> -128233481 [] OTHER -> None
ShellOf(s) == IF s.oc = <<>> THEN 0 ELSE s.oc[1][3]
MOf(s) == IF s.oc = <<>> THEN 0 ELSE s.oc[1][4]
Known(s) ==
  CASE s.k = "at" /\ OneElectron(s) /\ s.me = HF /\ s.qz = 0 /\ s.cf = 0 /\ s.ez = 0 /\ s.bz = 0 ->
         -((500000 * s.zc * s.zc) \div ((ShellOf(s) + 1) * (ShellOf(s) + 1)))
    [] s.k = "at" /\ OneElectron(s) /\ s.me = HF /\ s.qz = 0 /\ s.cf = 0 /\ s.bz = 0 /\ s.zc = 1 /\ s.oc = <<>> ->
         -500000 - (9 * s.ez * s.ez) \div 400                                              \* quadratic Stark effect
    [] s.k = "at" /\ OneElectron(s) /\ s.me = HF /\ s.qz = 0 /\ s.cf = 0 /\ s.ez = 0 /\ s.zc = 1 /\ s.oc = <<>> ->
         -500000 - 50 * s.bz + (s.bz * s.bz) \div 400                                      \* spin Zeeman and diamagnetic shift
    [] s.k = "at" /\ OneElectron(s) /\ s.me = HF /\ s.qz = 0 /\ s.cf = 0 /\ s.ez = 0 /\ s.zc = 1 /\ ShellOf(s) = 1 /\ Abs(MOf(s)) = 1 ->
         -125000 - 50 * s.bz * (1 + MOf(s)) + (3 * s.bz * s.bz) \div 100
    [] Plain(s) /\ s.oc = <<>> /\ s.me = HF /\ ~OneElectron(s) -> LitHF(s.zc, s.na, s.nb)
    [] Plain(s) /\ s.oc = <<>> /\ s.me = "lda_x-lda_c_vwn" -> LitLDA(s.zc, s.na, s.nb)
    [] s.k = "mo" /\ NoField(s) /\ OneElectron(s) /\ s.me = HF /\ <<s.z1, s.z2, s.rb>> = <<1, 1, 3>> ->
         (CASE s.oc = <<>> -> -602634 [] s.oc # <<>> /\ Abs(MOf(s)) = 1 -> 71228 [] s.oc # <<>> /\ MOf(s) = 0 /\ ShellOf(s) = -1 -> -167534 [] OTHER -> -602634)
    [] s.k = "mo" /\ NoField(s) /\ OneElectron(s) /\ s.me = HF /\ <<s.z1, s.z2, s.rb>> = <<2, 2, 1>> /\ s.oc = <<>> -> -410537
    [] s.k = "mo" /\ NoField(s) /\ <<s.na, s.nb>> = <<1, 1>> /\ s.me = HF /\ <<s.z1, s.z2, s.rb>> = <<1, 1, 2>> /\ s.oc = <<>> -> -1133630
    [] OTHER -> None
(* accuracy of the bases the runs use *)
BasisTol(s, prog) == IF prog = "dia" THEN 120 ELSE IF s.bz # 0 /\ s.oc # <<>> THEN 60 ELSE IF s.zc >= 7 THEN 150 ELSE IF s.zc > 2 THEN 15 ELSE 5
(* ---- runs that cannot be honoured ---- *)
Misuse == {"nosplit", "stripped", "mult", "guess", "nquad", "method", "em_norm", "em_nelem0", "occ_sum", "occ_m", "occ_cols", "occ_sym0", "occ_missing", "pure_sym0", "rs_dia"}
Restricted(s, p) == p.restr = 1 \/ (p.restr = -1 /\ s.na = s.nb)
(* a checkpoint can seed a run of the same program with the same numbers of electrons *)
Unusable(s, p, F) == p.load # "" /\ (F[p.load] = <<>> \/ (F[p.load] # <<>> /\ (F[p.load][1].p.prog # p.prog \/ (p.prog # "sad" /\ (F[p.load][1].s.na # s.na \/ F[p.load][1].s.nb # s.nb)))))
(* the energy of a prescribed occupation is claimed for runs that start from a guess or from a state of the same occupation:
   from another system's density the self-consistent iterations can settle in another state of the prescribed symmetry *)
Own(s, p, F) == p.load = "" \/ F[p.load] = <<>> \/ (F[p.load][1].own /\ (F[p.load][1].s.oc = s.oc \/ Same(s, F[p.load][1].s)))
Refused(s, p, F) == p.bad # "none" \/ Unusable(s, p, F)
(* ---- what one report of energies obeys ---- *)
Report(s, p, x, conv) ==
  /\ Near(x.t + x.v + x.j + x.c + x.x + x.ef + x.mf + x.cf + x.nr, x.tot, 6)
  /\ x.t >= 0 /\ x.j >= 0 /\ x.x <= 0
  /\ (s.me = HF => x.c = 0 /\ (OneElectron(s) /\ (conv \/ p.load = "") => Near(x.x, -x.j, 3)))   \* a loaded density may be another system's
  /\ (s.me = HF /\ s.na = 1 /\ s.nb = 1 /\ Restricted(s, p) /\ (conv \/ p.load = "") => Near(2 * x.x, -x.j, 4))
  /\ (s.me \in {"lda_x-lda_c_vwn", "gga_x_pbe-gga_c_pbe", "mgga_x_tpss-mgga_c_tpss"} => x.x = 0 /\ x.c <= 0)
  /\ (s.me \in {"hyb_gga_xc_b3lyp", "hyb_gga_xc_cam_b3lyp"} => x.x <= 0 /\ x.c <= 0)
  /\ (conv => (s.me # HF => x.c < 0) /\ x.t > 0)
  /\ (conv /\ s.me \in {"hyb_gga_xc_b3lyp", "hyb_gga_xc_cam_b3lyp"} => x.x < 0)
  /\ (s.ez = 0 /\ s.qz = 0 => x.ef = 0) /\ (s.bz = 0 => x.mf = 0) /\ (s.cf = 0 => x.cf = 0)
  /\ (s.cf # 0 => x.cf >= 0)
  /\ x.nr = (CASE s.k = "at" -> 0 [] s.k = "mo" -> s.z1 * s.z2 * InvR[s.rb] - (s.z1 * s.z2 * InvR[s.rb] - x.nr) * (IF Near(x.nr, s.z1 * s.z2 * InvR[s.rb], 4) THEN 1 ELSE 0)
       [] s.k = "em" -> LET e == s.zc * (s.z1 + s.z2) * InvR[s.rb] + (s.z1 * s.z2 * InvR[s.rb]) \div 2 IN IF Near(x.nr, e, 8) THEN x.nr ELSE e)
  /\ (conv => Abs(x.ne) <= 20)
(* the virial theorem: converged Hartree-Fock states of free atoms *)
Virial(s, p, x) == Plain(s) /\ s.me = HF => Near(x.t, -x.tot, IF p.prog = "dia" THEN 1500 ELSE 20 + BasisTol(s, p.prog) * 4)
(* ---- the energies of two runs ---- *)
PairTol(s, p, q) == IF p.prog = q.prog /\ p.bas = q.bas /\ p.lx = q.lx THEN (IF p.prog = "dia" THEN 10 ELSE 4)
                                    ELSE IF s.k = "em" THEN (IF p.lx = q.lx THEN 1000 ELSE 400000)
                    ELSE IF s.k = "mo" THEN (IF p.lx = q.lx THEN 60 ELSE 6000)
                    ELSE IF p.prog = "dia" \/ q.prog = "dia" THEN (IF p.prog = q.prog /\ p.lx = q.lx THEN 60 ELSE 1000)
                    ELSE IF s.ez # 0 \/ s.qz # 0 \/ s.bz # 0 THEN 60 ELSE 2 * BasisTol(s, "ato")
Agrees(s, p, e, M) == \A x \in M : Same(s, x.s) => Near(e, x.e, PairTol(s, p, x.p))
(* more electrons of the fields and methods alike bind more: removing an electron from a free atom costs energy;
   a repulsive confinement raises the energy, an electric dipole field lowers it *)
Ordered(s, e, M) == \A x \in M :
   /\ (s.cf # 0 /\ x.s = [s EXCEPT !.cf = 0, !.lm = x.s.lm]) => e >= x.e - 5
   /\ (s.ez # 0 /\ x.s = [s EXCEPT !.ez = 0, !.lm = x.s.lm] /\ s.k = "at") => e <= x.e + 60
(* ---- restart: the first energy of a run that loads a checkpoint is the last energy of the run that saved it ---- *)
Coarser(a, b) == a = b \/ (a \in {0, 1} /\ b >= a)
Refines(s, p, f) == /\ Same(s, f.s) /\ (s.z1 = f.s.z1 /\ s.ez = f.s.ez /\ s.oc = f.s.oc)
                    /\ (s.k = "at" /\ p.prog = "dia" => p.ang = f.p.ang)
                    /\ (p.prog # "sad" => Coarser(p.sym, f.p.sym))
                    /\ p.bas = f.p.bas /\ p.lx >= f.p.lx
Resumes(s, p, ev, f) == Refines(s, p, f) => Near(ev.first.tot, f.x.tot, 4) /\ Near(ev.first.t, f.x.t, 40) /\ Near(ev.first.v, f.x.v, 40) /\ Near(ev.first.j, f.x.j, 40) /\ ev.last.tot <= ev.first.tot + 4
(* ---- design: presentations drawn from a small set, energies from an oracle ---- *)
CONSTANTS Sys, Pres, Oracle(_)
RInit == mem = {} /\ files = ("f1" :> <<>> @@ "f2" :> <<>>)
Step(s, p) ==
  IF Refused(s, p, files) THEN UNCHANGED rvars
  ELSE /\ mem' = mem \cup {[s |-> s, p |-> p, e |-> Oracle(s)]}
       /\ files' = IF p.save = "" THEN files ELSE [files EXCEPT ![p.save] = <<[s |-> s, p |-> p, own |-> Own(s, p, files), x |-> [tot |-> Oracle(s)]]>>]
RNext == Cardinality(mem) < 3 /\ \E s \in Sys, p \in Pres : Step(s, p)
MSpec == RInit /\ [][RNext]_rvars
OrbitsPartition == \A s, t \in Sys : (t \in Orbit(s)) = (s \in Orbit(t)) /\ (t \in Orbit(s) => Orbit(s) = Orbit(t))
KnownAgrees == \A s \in Sys : \A t \in Orbit(s) : (s.bz = 0 \/ t.bz = s.bz) => Known(s) = Known(t)
MemAgrees == \A x, y \in mem : Same(x.s, y.s) => x.e = y.e
FilesFromRuns == \A f \in DOMAIN files : files[f] # <<>> => \E x \in mem : x.s = files[f][1].s /\ x.p = files[f][1].p /\ x.p.save = f
OnlyUsable == \A x \in mem : x.p.bad = "none"
RefinesReflexive == \A f \in DOMAIN files : files[f] # <<>> => Refines(files[f][1].s, files[f][1].p, files[f][1])
S0(zc, z1, z2, rb, k, a, b) == [k |-> k, zc |-> zc, z1 |-> z1, z2 |-> z2, rb |-> rb, na |-> a, nb |-> b, me |-> HF, ez |-> 0, qz |-> 0, bz |-> 0, cf |-> 0, oc |-> <<>>, lm |-> 0, mm |-> 0]
SmallSys == {S0(1, 0, 0, 0, "at", 1, 0), [S0(1, 0, 0, 0, "at", 1, 0) EXCEPT !.oc = <<<<1, 0, 1, 1>>>>], [S0(1, 0, 0, 0, "at", 1, 0) EXCEPT !.oc = <<<<1, 0, 1, -1>>>>],
             S0(0, 2, 1, 2, "mo", 1, 1), S0(0, 1, 2, 2, "mo", 1, 1), S0(2, 0, 0, 0, "at", 1, 1)}
P0 == [prog |-> "ato", sym |-> 1, restr |-> -1, qm |-> 0, guess |-> 2, thr |-> 1, ang |-> 0, bas |-> 1, save |-> "", load |-> "", pure |-> -1, lx |-> 0, bad |-> "none", pot |-> 0]
SmallPres == {P0, [P0 EXCEPT !.save = "f1"], [P0 EXCEPT !.load = "f1"], [P0 EXCEPT !.prog = "dia", !.save = "f2"], [P0 EXCEPT !.bad = "mult", !.save = "f2"]}
SmallOracle(s) == (Nel(s) + s.zc + s.z1 + s.z2) * (IF s.oc = <<>> THEN 3 ELSE 1)
=============================================================================
