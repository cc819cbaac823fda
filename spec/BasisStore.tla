----------------------------- MODULE BasisStore -----------------------------
(* A basis kept in a checkpoint file: a register holding the description of *)
(* the last stored basis; fetching yields that basis, of that kind only.    *)
(* Configurations are records of small integers (the driver maps length     *)
(* tokens to concrete radii, fresh per seed).                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Configs     \* configurations used in this instance
VARIABLES cur         \* the stored configuration
Polys == {3, 4, 5, 8, 9, 100, 101}
Kinds == {"abas", "dbas"}
(* angular channel lists (l, m): ordered, unordered, negative m, gaps, repeated l *)
Chans == << <<<<0, 0>>>>,
            <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<1, -1>>>>,
            <<<<1, -1>>, <<0, 0>>>>,
            <<<<2, 1>>, <<1, 1>>, <<3, 1>>>>,
            <<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<2, 2>>, <<2, -2>>, <<3, -1>>>> >>
AtomicCfgs == [kind : {"abas"}, poly : Polys, nn : 2..4, zeroder : 0..1, model : 0..4,
               z : {<<1, 0, 0>>, <<26, 3, 1>>}, chan : 1..Len(Chans), nel : {2}, dq : {0}]
DiatomicCfgs == [kind : {"dbas"}, poly : Polys, nn : 2..4, zeroder : {0}, model : {0},
                 z : {<<1, 1, 0>>, <<8, 3, 0>>, <<0, 6, 0>>}, chan : 1..Len(Chans), nel : {2, 3}, dq : {0}]
WideA == [kind : {"abas"}, poly : Polys, nn : 2..4, zeroder : 0..1, model : 0..4,
          z : {<<1, 0, 0>>, <<26, 3, 1>>, <<7, 0, 2>>, <<118, 1, 0>>}, chan : 1..Len(Chans), nel : 2..4, dq : 0..7]
WideD == [kind : {"dbas"}, poly : Polys, nn : 2..4, zeroder : {0}, model : {0},
          z : {<<1, 1, 0>>, <<8, 3, 0>>, <<0, 6, 0>>, <<92, 9, 0>>}, chan : 1..Len(Chans), nel : 2..4, dq : 0..7]
Small == {[kind |-> k, poly |-> p, nn |-> 3, zeroder |-> 0, model |-> 0, z |-> <<1, 1, 0>>, chan |-> 1, nel |-> 2, dq |-> 0] : k \in Kinds, p \in {4, 5}}
None == [kind |-> "-"]
Init == cur = None
Store(c) == cur' = c
(* fetching never changes the file and succeeds exactly for the stored kind *)
LoadOK(k) == cur.kind = k
Load(k) == cur' = cur
Next == (\E c \in Configs : Store(c)) \/ (\E k \in Kinds : Load(k))
Spec == Init /\ [][Next]_cur
OneKind == Cardinality({k \in Kinds : LoadOK(k)}) <= 1
StoredKnown == cur = None \/ cur \in Configs
=============================================================================
