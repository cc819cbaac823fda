------------------------------- MODULE Elements -------------------------------
(***************************************************************************)
(* Elements and tabulated atomic models: the periodic table, the aufbau     *)
(* count of orbitals, and the domains of the tables.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLE q               \* the last query (nothing else is remembered)
Symbols == << "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca",
   "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr",
   "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba",
   "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W",
   "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U",
   "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm", "Md", "No", "Lr", "Rf", "Db", "Sg", "Bh", "Hs", "Mt", "Ds",
   "Rg", "Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og" >>
NElem == Len(Symbols)
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerC == "abcdefghijklmnopqrstuvwxyz"
Ch(s, i) == SubSeq(s, i, i)
LC(c) == IF \E i \in 1..26 : Ch(Upper, i) = c THEN Ch(LowerC, CHOOSE i \in 1..26 : Ch(Upper, i) = c) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF Len(s) = 0 THEN "" ELSE LC(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))
LowSym == [i \in 1..NElem |-> Lower(Symbols[i])]
DigitS == "0123456789"
IsDigit(c) == \E i \in 1..10 : Ch(DigitS, i) = c
IsAlpha(c) == \E i \in 1..26 : Ch(Upper, i) = c \/ Ch(LowerC, i) = c
RECURSIVE ToInt(_)
ToInt(s) == IF Len(s) = 0 THEN 0 ELSE 10 * ToInt(SubSeq(s, 1, Len(s) - 1)) + (CHOOSE i \in 1..10 : Ch(DigitS, i) = Ch(s, Len(s))) - 1
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(Ch(s, i))
(* what an element string means: <<"Z", n>>, <<"refused">> or <<"open">> *)
Meaning(s) ==
   IF Len(s) = 0 THEN <<"Z", 0>>                                  \* no nucleus
   ELSE IF AllDigits(s) THEN IF Len(s) > 8 THEN <<"open">> ELSE <<"Z", ToInt(s)>>
   ELSE IF ~IsAlpha(Ch(s, 1)) THEN <<"open">>
   ELSE LET t == Lower(s) IN IF \E i \in 1..NElem : LowSym[i] = t THEN <<"Z", CHOOSE i \in 1..NElem : LowSym[i] = t>> ELSE <<"refused">>
(* ---- aufbau: subshells in the order of n+l, then n ---- *)
Shells == <<<<1, 0>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>, <<4, 0>>, <<3, 2>>, <<4, 1>>, <<5, 0>>, <<4, 2>>, <<5, 1>>, <<6, 0>>, <<4, 3>>, <<5, 2>>, <<6, 1>>, <<7, 0>>, <<5, 3>>, <<6, 2>>, <<7, 1>>>>
RECURSIVE Before(_)
Before(k) == IF k = 1 THEN 0 ELSE Before(k - 1) + 2 * (2 * Shells[k - 1][2] + 1)
Starts == [k \in 1..Len(Shells) |-> Before(k) + 1]
(* number of orbitals with |m| = m in the occupied shells of an atom *)
Orbs(Z, m) == Cardinality({k \in 1..Len(Shells) : Z >= Starts[k] /\ Shells[k][2] >= m})
OrbCount(Z1, Z2) == [m \in 0..3 |-> Orbs(Z1, m) + Orbs(Z2, m)]
(* ---- the domains of the tabulated models ---- *)
GSZTable == << 1000, 215, 563, 858, 979, 880, 776, 708, 575, 500, 561, 621, 729, 817, 868, 885, 881, 862, 1006, 1154, 1116,
   1060, 996, 837, 866, 807, 751, 700, 606, 612, 631, 649, 663, 675, 684, 689, 744, 798, 855, 866, 831, 825, 855,
   803, 788, 737, 754, 775, 810, 841, 870, 896, 919, 940, 1022, 1108, 1150, 1081, 970, 938, 905, 873, 842, 862,
   830, 754, 728, 702, 677, 654, 665, 672, 676, 679, 680, 680, 679, 661, 657, 671, 690, 708, 726, 744, 761, 777,
   818, 859, 899, 927, 887, 880, 872, 832, 822, 842, 830, 790, 778, 766, 754, 742, 755 >>       \* Green, Sellin, Zachor 1969, thousandths, from hydrogen
HasGSZ(Z) == Z \in 1..Len(GSZTable)
HasSAP(Z) == Z \in 1..118
(* ---- design check ---- *)
CONSTANT MaxZ
EInit == q = <<0, 0>>
ENext == \E a \in 0..MaxZ, b \in {0, 1, 8, 26} : q' = <<a, b>> /\ q = <<0, 0>>
ESpec == EInit /\ [][ENext]_q
MadelungOrder == \A k \in 1..Len(Shells) - 1 : LET a == Shells[k] b == Shells[k + 1] IN a[1] + a[2] < b[1] + b[2] \/ (a[1] + a[2] = b[1] + b[2] /\ a[1] < b[1])
Distinct == \A i, j \in 1..NElem : LowSym[i] = LowSym[j] => i = j
RoundTrip == q[1] \in 1..NElem => Meaning(Symbols[q[1]]) = <<"Z", q[1]>> /\ Meaning(LowSym[q[1]]) = <<"Z", q[1]>>
(* the orbitals hold all electrons, with less than one shell to spare *)
Capacity(Z) == 2 * (Orbs(Z, 0) + 2 * Orbs(Z, 1) + 2 * Orbs(Z, 2) + 2 * Orbs(Z, 3))
Holds == Capacity(q[1]) >= q[1] /\ Capacity(q[1]) - q[1] < 14
Additive == \A m \in 0..3 : OrbCount(q[1], q[2])[m] = OrbCount(q[2], q[1])[m] /\ OrbCount(q[1], 0)[m] = Orbs(q[1], m)
===============================================================================
