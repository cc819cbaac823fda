---------------------------------- MODULE XC ----------------------------------
(***************************************************************************)
(* Density functional specifications.  The functional library is a          *)
(* catalogue: identifiers with names, kind, family and features.  A         *)
(* specification string is resolved against it; every question about a      *)
(* resolved functional is answered from its record.                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES cat,      \* id :> record
          names,    \* lower-case name :> id
          last      \* the outcome of the last resolution
xvars == <<cat, names, last>>
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerC == "abcdefghijklmnopqrstuvwxyz"
Ch(s, i) == SubSeq(s, i, i)
LC(c) == IF \E i \in 1..26 : Ch(Upper, i) = c THEN Ch(LowerC, CHOOSE i \in 1..26 : Ch(Upper, i) = c) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF Len(s) = 0 THEN "" ELSE LC(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))
DigitS == "0123456789"
IsDigit(c) == \E i \in 1..10 : Ch(DigitS, i) = c
Val(c) == (CHOOSE i \in 1..10 : Ch(DigitS, i) = c) - 1
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
RECURSIVE ToInt(_)
ToInt(s) == IF Len(s) = 0 THEN 0 ELSE 10 * ToInt(SubSeq(s, 1, Len(s) - 1)) + Val(Ch(s, Len(s)))
NoneId == 0
HFId == -1
(* ---- resolution of one name: <<"id", n>>, <<"refused">>, or <<"open">> where no spelling rule applies ---- *)
Strip(s) == IF Len(s) > 3 /\ SubSeq(s, 1, 3) = "xc_" THEN SubSeq(s, 4, Len(s)) ELSE s
Name(s) ==
   IF Len(s) = 0 THEN <<"refused">>
   ELSE IF AllDigits(s) THEN IF Len(s) > 8 THEN <<"open">> ELSE <<"id", ToInt(s)>>
   ELSE IF IsDigit(Ch(s, 1)) THEN <<"open">>
   ELSE LET t == Lower(s) IN
        IF t = "none" THEN <<"id", NoneId>>
        ELSE IF t \in {"hf", "hyb_x_hf"} THEN <<"id", HFId>>
        ELSE IF Strip(t) \in DOMAIN names THEN <<"id", names[Strip(t)]>> ELSE <<"refused">>
Known(n) == n \in {NoneId, HFId} \/ n \in DOMAIN cat
Usable(n) == Known(n) /\ (n > 0 => cat[n].kind # 3)         \* kinetic-energy functionals cannot be used
(* ---- a whole specification ---- *)
FirstDash(s) == IF \E i \in 1..Len(s) : Ch(s, i) = "-" THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = "-" /\ \A j \in 1..i - 1 : Ch(s, j) # "-" ELSE 0
Spec2(s) == LET d == FirstDash(s) IN
   IF d = 0 THEN <<Name(s), <<"id", NoneId>> >> ELSE <<Name(SubSeq(s, 1, d - 1)), Name(SubSeq(s, d + 1, Len(s)))>>
Resolve(s) == LET p == Spec2(s) IN
   IF p[1][1] = "refused" \/ p[2][1] = "refused" THEN <<"refused">>
   ELSE IF (p[1][1] = "id" /\ ~Usable(p[1][2])) \/ (p[2][1] = "id" /\ ~Usable(p[2][2])) THEN <<"refused">>
   ELSE IF p[1][1] = "open" \/ p[2][1] = "open" THEN <<"open">>
   ELSE <<"pair", p[1][2], p[2][2]>>
(* ---- the answers about one functional ---- *)
LDA == {1, 128}
GGA == {2, 32}
MGGA == {4, 64}
HYB == {32, 64, 128}
Answers(n) ==
   IF n = NoneId THEN [x |-> FALSE, c |-> FALSE, xc |-> FALSE, k |-> FALSE, gga |-> FALSE, mt |-> FALSE, ml |-> FALSE, grad |-> FALSE, tau |-> FALSE, lapl |-> FALSE,
                       exx |-> 0, erf |-> FALSE, yuk |-> FALSE, omega |-> 0, alpha |-> 0, beta |-> 0, vv |-> FALSE, vb |-> 0, vC |-> 0, exc |-> TRUE, sup |-> TRUE]
   ELSE IF n = HFId THEN [x |-> TRUE, c |-> FALSE, xc |-> FALSE, k |-> FALSE, gga |-> FALSE, mt |-> FALSE, ml |-> FALSE, grad |-> FALSE, tau |-> FALSE, lapl |-> FALSE,
                       exx |-> 1000000, erf |-> FALSE, yuk |-> FALSE, omega |-> 0, alpha |-> 1000000, beta |-> 0, vv |-> FALSE, vb |-> 0, vC |-> 0, exc |-> TRUE, sup |-> TRUE]
   ELSE LET r == cat[n] rs == r.erf \/ r.yuk h == r.fam \in HYB IN
        [x |-> r.kind \in {0, 2}, c |-> r.kind = 1, xc |-> r.kind = 2, k |-> r.kind = 3,
         gga |-> r.fam \in GGA, mt |-> r.fam \in MGGA /\ r.tau, ml |-> r.fam \in MGGA /\ r.lapl,
         grad |-> r.fam \in GGA \cup MGGA, tau |-> r.fam \in MGGA /\ r.tau, lapl |-> r.fam \in MGGA /\ r.lapl,
         exx |-> IF h THEN r.exx ELSE 0, erf |-> r.erf, yuk |-> r.yuk,
         omega |-> IF h /\ rs THEN r.omega ELSE 0, alpha |-> IF h THEN r.alpha ELSE 0, beta |-> IF h /\ rs THEN r.beta ELSE 0,
         vv |-> r.vv, vb |-> IF r.vv THEN r.vb ELSE 0, vC |-> IF r.vv THEN r.vC ELSE 0, exc |-> r.exc, sup |-> r.sup]
Load(rs) == /\ cat' = [n \in {rs[i].id : i \in 1..Len(rs)} |-> rs[CHOOSE i \in 1..Len(rs) : rs[i].id = n]]
            /\ names' = [s \in {rs[i].name : i \in 1..Len(rs)} |-> rs[CHOOSE i \in 1..Len(rs) : rs[i].name = s].id]
DoResolve(s) == last' = Resolve(s) /\ UNCHANGED <<cat, names>>
(* ---- design check on a small catalogue: every spelling of a functional means the same ---- *)
Rec(i, n, k, f) == [id |-> i, name |-> n, kind |-> k, fam |-> f, tau |-> TRUE, lapl |-> FALSE, exx |-> 250000, erf |-> FALSE, yuk |-> FALSE, omega |-> 0, alpha |-> 250000, beta |-> 0, vv |-> FALSE, vb |-> 0, vC |-> 0, exc |-> TRUE, sup |-> TRUE]
SmallCat == << Rec(1, "lda_x", 0, 1), Rec(7, "lda_c_vwn", 1, 1), Rec(50, "lda_k_tf", 3, 1), Rec(101, "gga_x_pbe", 0, 2), Rec(406, "hyb_gga_xc_pbeh", 2, 32) >>
Spellings == [n \in {-1, 0, 1, 7, 50, 101, 406} |->
   CASE n = -1 -> {"HF", "hf", "Hf", "hyb_x_hf", "HYB_X_HF"} [] n = 0 -> {"none", "NONE", "0", "00"} [] n = 1 -> {"1", "lda_x", "LDA_X", "xc_lda_x", "Lda_x"} [] n = 7 -> {"7", "LDA_C_VWN", "XC_LDA_C_VWN"}
     [] n = 50 -> {"50", "lda_k_tf"} [] n = 101 -> {"101", "gga_x_pbe"} [] n = 406 -> {"406", "Hyb_GGA_xc_pbeh"}]
Junk == {"", "-", "gga_x", "lda_xx", "2", "99", "hff", "non", "xc_", "xc_xc_lda_x"}
AllNames == UNION {Spellings[n] : n \in DOMAIN Spellings}
MInit == cat = [n \in {SmallCat[i].id : i \in 1..5} |-> SmallCat[CHOOSE i \in 1..5 : SmallCat[i].id = n]] /\ names = [s \in {SmallCat[i].name : i \in 1..5} |-> SmallCat[CHOOSE i \in 1..5 : SmallCat[i].name = s].id] /\ last = <<>>
MNext == /\ last = <<>> /\ UNCHANGED <<cat, names>>
         /\ \E a \in AllNames \cup Junk, b \in AllNames \cup Junk \cup {"|"} : LET s == IF b = "|" THEN a ELSE a \o "-" \o b IN last' = <<s, a, b, Resolve(s)>>
MSpec == MInit /\ [][MNext]_xvars
Denotes(a) == CHOOSE n \in DOMAIN Spellings : a \in Spellings[n]
SpellingFree == (last # <<>> /\ last[2] \in AllNames /\ last[3] \in AllNames) => last[4] = IF 50 \in {Denotes(last[2]), Denotes(last[3])} THEN <<"refused">> ELSE <<"pair", Denotes(last[2]), Denotes(last[3])>>
SingleHasNoCorrelation == (last # <<>> /\ last[3] = "|" /\ last[4][1] = "pair") => last[4][3] = NoneId
JunkRefused == (last # <<>> /\ (last[2] \in Junk \/ last[3] \in Junk)) => last[4] = <<"refused">>
OneKind == \A n \in {-1, 0} \cup DOMAIN cat : LET a == Answers(n) IN /\ ~(a.c /\ a.x) /\ ~(a.k /\ (a.x \/ a.c)) /\ (a.xc => a.x)
                                                    /\ (a.gga => a.grad) /\ ((a.mt \/ a.ml) => a.grad) /\ (a.tau = a.mt) /\ (a.lapl = a.ml)
===============================================================================
