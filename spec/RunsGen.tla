------------------------------ MODULE RunsGen ------------------------------
(* Random histories of runs: a few systems per history, presented in many ways, saved, loaded and misused. *)
EXTENDS Runs, Json
CONSTANTS Depth, Pool
VARIABLES hist, sel
R(S) == RandomElement(S)
B(k, zc, z1, z2, rb, a, b, me) == [k |-> k, zc |-> zc, z1 |-> z1, z2 |-> z2, rb |-> rb, na |-> a, nb |-> b, me |-> me, ez |-> 0, qz |-> 0, bz |-> 0, cf |-> 0, oc |-> <<>>, lm |-> 0, mm |-> 0]
At(z, a, b, me) == LET s == B("at", z, 0, 0, 0, a, b, me) IN IF z >= 5 THEN [s EXCEPT !.lm = 1, !.mm = 1] ELSE s
Methods == {HF, HF, "lda_x-lda_c_vwn", "gga_x_pbe-gga_c_pbe", "mgga_x_tpss-mgga_c_tpss", "hyb_gga_xc_b3lyp", "hyb_gga_xc_cam_b3lyp"}
Shell(s, n, lv, mv) == [s EXCEPT !.oc = <<<<n, 0, lv, mv>>>>, !.lm = IF lv < 0 THEN 0 ELSE lv, !.mm = Abs(mv)]
AtomNE == {<<2, 1, 1>>, <<3, 1, 1>>, <<3, 2, 1>>, <<4, 2, 2>>, <<7, 5, 2>>, <<10, 5, 5>>, <<4, 1, 1>>}
Picks(kind, x) ==                                \* one system of the kind (x: any state value, for a fresh draw)
  CASE kind = "hyd" -> At(R(1..4), 1, 0, HF)
    [] kind = "shell" -> LET lv == R(0..2) IN Shell(At(R(1..4), 1, 0, HF), 1, lv, R(-lv..lv))
    [] kind = "atom" -> LET e == R(AtomNE) IN At(e[1], e[2], e[3], R(IF e[1] >= 7 THEN Methods \ {"mgga_x_tpss-mgga_c_tpss"} ELSE Methods))
    [] kind = "lit" -> LET e == R(AtomNE \cup {<<1, 1, 0>>}) IN At(e[1], e[2], e[3], R({HF, "lda_x-lda_c_vwn"}))
    [] kind = "stark" -> [At(1, 1, 0, HF) EXCEPT !.ez = R({-100, -50, 50, 100}), !.lm = 2]
    [] kind = "zeeman" -> [At(1, 1, 0, HF) EXCEPT !.bz = R({-200, -100, 100, 200}), !.lm = 2]
    [] kind = "orbital" -> [Shell(At(1, 1, 0, HF), 1, 1, R({-1, 1})) EXCEPT !.bz = R({-200, -100, 100, 200}), !.lm = 2]
    [] kind = "field" -> LET e == R({<<2, 1, 1>>, <<3, 2, 1>>, <<4, 2, 2>>}) s == At(e[1], e[2], e[3], R({HF, "lda_x-lda_c_vwn"})) IN
                         [s EXCEPT !.ez = R({0, -60, 60}), !.qz = R({0, 0, 40, -40}), !.bz = R({0, 0, 150}), !.lm = 2]
    [] kind = "conf" -> LET e == R({<<1, 1, 0>>, <<2, 1, 1>>, <<3, 2, 1>>}) s == At(e[1], e[2], e[3], R({HF, "lda_x-lda_c_vwn"})) IN [s EXCEPT !.cf = R(1..4)]
    [] kind = "h2p" -> B("mo", 0, 1, 1, 3, 1, 0, HF)
    [] kind = "he2" -> B("mo", 0, 2, 2, 1, 1, 0, HF)
    [] kind = "su" -> Shell(B("mo", 0, 1, 1, 3, 1, 0, HF), 1, -1, 0)
    [] kind = "pi" -> [Shell(B("mo", 0, 1, 1, 3, 1, 0, HF), 1, 0, R({-1, 1})) EXCEPT !.mm = 1]
    [] kind = "mol" -> LET z == R({<<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<1, 3>>}) IN
                       [B("mo", 0, z[1], z[2], R(1..4), 1, 1, R(IF z[1] = 3 \/ z[2] = 3 THEN {HF, "lda_x-lda_c_vwn"} ELSE Methods \ {"hyb_gga_xc_cam_b3lyp", "mgga_x_tpss-mgga_c_tpss"})) EXCEPT !.ez = R({0, 0, -40, 40}), !.mm = R({0, 0, 0, 1})]
    [] kind = "emb" -> LET z == R({<<1, 0>>, <<1, 1>>, <<0, 2>>, <<1, 2>>}) IN [B("em", R(1..2), z[1], z[2], R(1..3), 1, 1, R({HF, "lda_x-lda_c_vwn"})) EXCEPT !.lm = 4, !.ez = R({0, 0, 30})]
Kinds == {"hyd", "shell", "atom", "lit", "stark", "zeeman", "orbital", "field", "conf", "h2p", "he2", "su", "pi", "mol", "emb", "atom", "lit"}
(* ---- admissible presentations ---- *)
ShellM(s) == \A i \in 1..Len(s.oc) : s.oc[i][3] = Abs(s.oc[i][4])
Progs(s) == CASE s.k = "mo" -> {"dia"} [] s.k = "em" -> {"ato"}
   [] OTHER -> {"ato"} \cup (IF NoField(s) /\ ShellOf(s) = 0 THEN {"sad"} ELSE {}) \cup (IF s.cf = 0 /\ s.zc <= 2 /\ ShellM(s) /\ (s.oc = <<>> \/ (s.bz = 0 /\ Abs(MOf(s)) <= 1)) /\ s.me # "hyb_gga_xc_cam_b3lyp" THEN {"dia"} ELSE {})
Syms(s, g) == CASE g = "sad" -> {0}
   [] g = "ato" -> IF s.oc # <<>> THEN (IF ShellM(s) /\ s.bz = 0 THEN {1, 2} ELSE IF s.bz # 0 THEN {1} ELSE {2}) ELSE {0, 1, 2}
   [] g = "dia" -> IF s.oc # <<>> THEN (IF s.k = "mo" /\ s.oc[1][3] < 0 THEN {2} ELSE {1}) ELSE IF s.bz = 0 THEN 0..3 ELSE 0..2
Restrs(s) == IF s.na = s.nb THEN {-1, 0, 1} ELSE {-1, 0}
Present(s, x) ==
  LET g == R(IF R(0..3) = 0 THEN {"ato", "dia"} \cap Progs(s) ELSE Progs(s)) IN LET sy == R(Syms(s, g)) IN
  [prog |-> g, sym |-> sy, restr |-> R(Restrs(s)), qm |-> R(0..1), guess |-> R((IF s.na <= 1 /\ s.nb <= 1 THEN {0, 2, 3} ELSE {2, 3}) \cup (IF (s.k = "at" /\ g # "dia" /\ s.zc > 1) \/ (s.k = "mo" /\ s.z1 > 1 /\ s.z2 > 1) THEN {1} ELSE {})), thr |-> R({1, 2}), ang |-> R(0..1), bas |-> IF s.k = "em" \/ (s.mm > 0 /\ (g = "dia" \/ s.bz # 0)) THEN R({1, 1, 2}) ELSE R({1, 1, 2, 3, 4}),
   save |-> R({"", "f1", "f2"}), load |-> R({"", "", "f1", "f2"}), pure |-> IF g = "dia" /\ sy > 0 THEN R({-1, 0, 1}) ELSE IF g = "dia" THEN R({-1, 0}) ELSE -1, lx |-> R({0, 0, 1}), bad |-> "none", pot |-> IF g = "sad" THEN R(0..1) ELSE 0]
(* misuses that apply to this presentation *)
Bads(s, p) == {"nosplit", "stripped", "mult", "guess", "nquad", "method"} \cup (IF s.k = "em" THEN {"em_norm", "em_nelem0"} ELSE {})
   \cup (IF s.oc # <<>> /\ p.prog # "sad" THEN {"occ_sum", "occ_m", "occ_cols", "occ_sym0", "occ_missing"} ELSE {}) \cup (IF s.oc # <<>> /\ p.prog = "sad" THEN {"occ_cols"} ELSE {})
   \cup (IF p.prog = "dia" THEN {"pure_sym0", "rs_dia"} ELSE {})
Spoil(s, p, b) == CASE b = "occ_sym0" -> [p EXCEPT !.bad = b, !.sym = 0, !.pure = IF p.prog = "dia" THEN 0 ELSE -1] [] b = "pure_sym0" -> [p EXCEPT !.bad = b, !.sym = 0, !.pure = 1] [] OTHER -> [p EXCEPT !.bad = b]
GInit == RInit /\ hist = <<>> /\ sel = <<>>
GStart == sel = <<>> /\ UNCHANGED <<rvars, hist>>
          /\ \E k1 \in {R(Pool)} : \E k2 \in {R(Pool)} : \E s1 \in {Picks(k1, hist)} : \E s2 \in {Picks(k2, <<hist, 1>>)} : \E o \in {R(0..2)} :
             sel' = <<s1, IF o = 0 /\ s1.k # "at" THEN Reflect(s1) ELSE IF o = 1 /\ s1.cf # 0 THEN [s1 EXCEPT !.cf = 0] ELSE IF o = 1 /\ s1.ez # 0 THEN [s1 EXCEPT !.ez = -s1.ez, !.z1 = s1.z2, !.z2 = s1.z1] ELSE IF o = 2 /\ s1.oc # <<>> /\ s1.bz = 0 THEN Turn(s1) ELSE s2>>
GRun == /\ sel # <<>> /\ Len(hist) < Depth /\ UNCHANGED sel
        /\ \E i \in {R({1, 1, 2})} : \E p0 \in {Present(sel[i], hist)} : \E v \in {R(0..7)} : \E b \in {R(Bads(sel[i], p0))} :
           LET s == sel[i] f == IF p0.load = "" THEN <<>> ELSE files[p0.load]
               p1 == IF v = 0 THEN Spoil(s, p0, b) ELSE p0
               \* mostly load what is there; often the very presentation that was saved
               p2 == IF p1.load # "" /\ f = <<>> /\ v < 7 THEN [p1 EXCEPT !.load = ""] ELSE p1
               p == IF p2.load # "" /\ f # <<>> /\ v \in {1, 2, 3, 4} /\ f[1].s = s /\ p2.bad = "none"
                    THEN [f[1].p EXCEPT !.save = p2.save, !.load = p2.load, !.lx = IF v = 4 THEN 1 ELSE @, !.restr = p2.restr, !.thr = p2.thr, !.pot = p2.pot]
                    ELSE IF p2.load # "" /\ f # <<>> /\ v \in {5, 6} /\ p2.bad = "none" THEN [p2 EXCEPT !.load = ""] ELSE p2 IN
           /\ Step(s, p) /\ hist' = Append(hist, [s |-> (IF p.bad = "rs_dia" THEN [s EXCEPT !.me = "hyb_gga_xc_cam_b3lyp"] ELSE s), p |-> p])
GSpec == GInit /\ [][GStart \/ GRun]_<<rvars, hist, sel>>
EmitEnd == IF Len(hist') = Depth /\ hist' # hist THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
Zero(s) == 0
=============================================================================
