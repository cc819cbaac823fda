---------------------------- MODULE Checkpoint ----------------------------
(***************************************************************************)
(* The checkpoint subsystem (src/general/checkpoint.{h,cpp}).              *)
(*                                                                         *)
(* State: a set of files on disk, each a map  name -> typed entry, and a   *)
(* set of in-process handles, each bound to one file, with an access mode  *)
(* and an open/closed state.  One action per public operation.  Every      *)
(* operation is described by the pure function Out(fs, hd, op), giving the *)
(* expected outcome and the successor state, so that the same definition   *)
(* drives (a) the design-level model check, (b) the generation of test     *)
(* behaviours and (c) the validation of recorded executions.               *)
(*                                                                         *)
(* Values are abstracted by tokens: (family, token) names one concrete     *)
(* value and shape; the conformance driver maps tokens to concrete values  *)
(* (fresh per seed) and back by bit-exact comparison.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Handles,    \* handle identifiers
          Files,      \* file identifiers
          GoodNames,  \* entry names
          BadNames,   \* entry names the file format cannot hold (missing group)
          Kinds,      \* kinds of value exercised in this configuration
          TokLimit,   \* use only tokens <= TokLimit (keeps exhaustive configs small)
          Bases       \* which basis kinds are stored: subset of {"abas", "dbas"}

VARIABLES fs,   \* [Files -> [ex : BOOLEAN, st : [GoodNames -> Entry], bas : stored basis]]
          hd    \* [Handles -> [alive, f, w, open]]
vars == <<fs, hd>>

Names == GoodNames \cup BadNames

(* ------------------------- kinds, families, tokens --------------------- *)
AllKinds == {"dmat","lmat","qmat","dvec","lvec","qvec","imat","dstd","lstd","qstd","hstd",
             "dsc","lsc","qsc","int","hsz","bool","str"}
Fam(k) == CASE k \in {"dmat","lmat","qmat","dvec","lvec","qvec"} -> "F2"
            [] k = "imat" -> "I2"
            [] k \in {"dstd","lstd","qstd"} -> "F1"
            [] k = "hstd" -> "H1"
            [] k = "str"  -> "S1"
            [] k \in {"dsc","lsc","qsc"} -> "F0"
            [] k \in {"int","hsz"} -> "I0"
            [] k = "bool" -> "B0"
Prec(k) == CASE k \in {"dmat","dvec","dstd","dsc"} -> 1
             [] k \in {"lmat","lvec","lstd","lsc"} -> 2
             [] k \in {"qmat","qvec","qstd","qsc"} -> 3
             [] k = "int" -> 1
             [] k = "hsz" -> 2
             [] OTHER -> 0
IsVec(k) == k \in {"dvec","lvec","qvec"}
(* tokens that each kind can store.  For floating families a token t is
   representable in precision p iff t \div 10 < p;  tokens ending in 8 or 9
   are "special" values (subnormal, not-a-number, infinities, signed zero)   *)
VecToks  == {3, 4, 7, 13, 23}
MatToks  == {1, 2, 3, 4, 5, 6, 8, 11, 21}
ToksAll(k) ==
  CASE IsVec(k) -> {t \in VecToks : t \div 10 < Prec(k)}
    [] Fam(k) = "F2" -> {t \in MatToks : t \div 10 < Prec(k)}
    [] Fam(k) = "I2" -> 1..5
    [] Fam(k) = "F1" -> {t \in {1, 2, 3, 8, 11, 21} : t \div 10 < Prec(k)}
    [] Fam(k) = "F0" -> {t \in {1, 2, 3, 8, 9, 11, 21} : t \div 10 < Prec(k)}
    [] Fam(k) = "H1" -> 1..3
    [] Fam(k) = "S1" -> 1..4
    [] k = "int"  -> {1, 2, 3}
    [] k = "hsz"  -> {1, 3, 4}
    [] k = "bool" -> {1, 2}
Toks(k) == {t \in ToksAll(k) : t <= TokLimit}
OneColumn(t) == t \in {3, 4, 7, 13, 23}
Special(t) == t % 10 \in {8, 9}

NoEntry == [fam |-> "-", prec |-> 0, tok |-> 0]
Entry(k, t) == [fam |-> Fam(k), prec |-> Prec(k), tok |-> t]

(* Expected outcome of fetching entry e as kind k:
     r = "ok" with value v, r = "err", or r = "any" (outcome not promised:
     lossy narrowing, integer kinds of different signedness or meaning).      *)
Fetch(e, k) ==
  LET err == [r |-> "err", v |-> 0]
      any == [r |-> "any", v |-> 0]
      val == [r |-> "ok",  v |-> e.tok]
      flt == IF e.prec = Prec(k) THEN val
             ELSE IF Special(e.tok) THEN any
             ELSE IF e.tok \div 10 < Prec(k) THEN val ELSE any
  IN CASE e = NoEntry -> err
       [] Fam(k) = "F2" -> IF e.fam # "F2" THEN err
                           ELSE IF IsVec(k) /\ ~OneColumn(e.tok) THEN err ELSE flt
       [] Fam(k) \in {"F1", "F0"} -> IF e.fam # Fam(k) THEN err ELSE flt
       [] Fam(k) = "I2" -> IF e.fam = "I2" THEN val ELSE err
       [] k = "hstd" -> IF e.fam = "H1" THEN val ELSE IF e.fam = "S1" THEN any ELSE err
       [] k = "str"  -> IF e.fam = "S1" THEN val ELSE IF e.fam = "H1" THEN any ELSE err
       [] k \in {"int","hsz"} ->
            IF e.fam = "I0"
              THEN IF e.prec = Prec(k) \/ e.tok \in {1, 3} THEN val ELSE any
              ELSE IF e.fam = "B0" THEN any ELSE err
       [] k = "bool" -> IF e.fam = "B0" THEN val ELSE IF e.fam = "I0" THEN any ELSE err

(* ------------------------------ operations ----------------------------- *)
NoHandle == [alive |-> FALSE, f |-> CHOOSE f \in Files : TRUE, w |-> FALSE, open |-> FALSE]
EmptyStore == [n \in GoodNames |-> NoEntry]
NoBasis == [k |-> "-", t |-> 0, whole |-> FALSE]
Blank(ex) == [ex |-> ex, st |-> EmptyStore, bas |-> NoBasis]

OpsNew   == [op : {"new"}, h : Handles, f : Files, w : BOOLEAN, t : BOOLEAN]
OpsH     == [op : {"open", "close", "flush", "destroy"}, h : Handles]
OpsHN    == [op : {"exist", "remove"}, h : Handles, n : Names]
OpsRead  == [op : {"read"}, h : Handles, n : Names, k : Kinds]
OpsWrite == UNION {[op : {"write"}, h : Handles, n : Names, k : {kk}, t : Toks(kk)] : kk \in Kinds}
(* basis store / fetch, and deletion of one of the entries a basis consists of *)
OpsBas   == [op : {"wbas"}, h : Handles, k : Bases, t : {1, 2}] \cup [op : {"rbas"}, h : Handles, k : Bases]
            \cup (IF Bases = {} THEN {} ELSE [op : {"strip"}, h : Handles])
Ops == OpsBas \cup OpsNew \cup OpsH \cup OpsHN \cup OpsRead \cup OpsWrite

(* The HDF5 library does not support a file being open under two handles with
   different access in one process, so an operation that opens a file is only
   issued when no other handle has that file open.                             *)
Free(h, f) == \A g \in Handles : g # h => ~(hd[g].alive /\ hd[g].open /\ hd[g].f = f)
Enabled(o) ==
  IF o.op = "new" THEN ~hd[o.h].alive /\ Free(o.h, o.f)
  ELSE /\ hd[o.h].alive
       /\ (~hd[o.h].open /\ o.op \notin {"destroy", "flush", "close"} => Free(o.h, hd[o.h].f))

Same == [fs |-> fs, hd |-> hd]
Res(r, v, f2, h2) == [r |-> r, v |-> v, fs |-> f2, hd |-> h2]

Out(o) ==
  LET H == hd[o.h]
      F == fs[H.f]
      closedOpen(b) == [hd EXCEPT ![o.h].open = b]
      put(e) == [fs EXCEPT ![H.f].st[o.n] = e]
  IN CASE o.op = "new" ->
            LET creates == o.w /\ (o.t \/ ~fs[o.f].ex)
                nh(op)  == [hd EXCEPT ![o.h] = [alive |-> TRUE, f |-> o.f, w |-> o.w, open |-> op]]
            IN IF creates THEN Res("ok", 0, [fs EXCEPT ![o.f] = Blank(TRUE)], nh(FALSE))
               ELSE IF ~fs[o.f].ex THEN Res("err", 0, fs, hd)
               ELSE Res("ok", 0, fs, nh(TRUE))
       [] o.op = "open"  -> IF H.open \/ ~F.ex THEN Res("err", 0, fs, hd) ELSE Res("ok", 0, fs, closedOpen(TRUE))
       [] o.op = "close" -> IF ~H.open THEN Res("err", 0, fs, hd) ELSE Res("ok", 0, fs, closedOpen(FALSE))
       [] o.op = "flush" -> Res("ok", 0, fs, hd)
       [] o.op = "destroy" -> Res("ok", 0, fs, [hd EXCEPT ![o.h] = NoHandle])
       [] o.op = "exist" -> Res("ok", IF o.n \in GoodNames /\ F.st[o.n] # NoEntry THEN 1 ELSE 0, fs, hd)
       [] o.op = "remove" -> IF ~H.w THEN Res("err", 0, fs, hd)
                             ELSE IF o.n \in BadNames THEN Res("any", 0, fs, hd)
                             ELSE Res("ok", 0, put(NoEntry), hd)
       [] o.op = "write" -> IF ~H.w \/ o.n \in BadNames THEN Res("err", 0, fs, hd)
                            ELSE Res("ok", 0, put(Entry(o.k, o.t)), hd)
       [] o.op = "wbas" -> IF ~H.w THEN Res("err", 0, fs, hd)
                           ELSE Res("ok", 0, [fs EXCEPT ![H.f].bas = [k |-> o.k, t |-> o.t, whole |-> TRUE]], hd)
       [] o.op = "strip" -> IF ~H.w THEN Res("err", 0, fs, hd)
                            ELSE Res("ok", 0, [fs EXCEPT ![H.f].bas.whole = FALSE], hd)
       [] o.op = "rbas" -> IF F.bas.k # o.k \/ ~F.bas.whole THEN Res("err", 0, fs, hd)
                           ELSE Res("ok", F.bas.t, fs, hd)
       [] o.op = "read" -> IF o.n \in BadNames THEN Res("err", 0, fs, hd)
                           ELSE LET x == Fetch(F.st[o.n], o.k) IN Res(x.r, x.v, fs, hd)

(* One named action per public operation, all instances of the same step.  *)
Do(o) == Enabled(o) /\ LET x == Out(o) IN fs' = x.fs /\ hd' = x.hd
New     == \E o \in OpsNew : Do(o)
Open    == \E h \in Handles : Do([op |-> "open", h |-> h])
Close   == \E h \in Handles : Do([op |-> "close", h |-> h])
Destroy == \E h \in Handles : Do([op |-> "destroy", h |-> h])
Query   == \E o \in OpsHN : Do(o)
Fetching == \E o \in OpsRead : Do(o)
Storing  == \E o \in OpsWrite : Do(o)
BasisOps == \E o \in OpsBas : Do(o)

Init == /\ fs = [f \in Files |-> Blank(FALSE)]
        /\ hd = [h \in Handles |-> NoHandle]
Next == New \/ Open \/ Close \/ Destroy \/ Query \/ Fetching \/ Storing \/ BasisOps
Spec == Init /\ [][Next]_vars

(* ------------------------- design-level properties --------------------- *)
TypeOK == /\ \A f \in Files : fs[f].ex \in BOOLEAN /\ \A n \in GoodNames :
                fs[f].st[n] = NoEntry \/ \E k \in Kinds : \E t \in Toks(k) : fs[f].st[n] = Entry(k, t)
          /\ \A h \in Handles : hd[h].alive \in BOOLEAN /\ hd[h].open \in BOOLEAN
OpenImpliesExists == \A h \in Handles : hd[h].open => hd[h].alive /\ fs[hd[h].f].ex
MissingIsEmpty == \A f \in Files : ~fs[f].ex => fs[f] = Blank(FALSE)
(* a live handle always refers to an existing file *)
LiveExists == \A h \in Handles : hd[h].alive => fs[hd[h].f].ex
(* C01: a handle's open state changes only by construction, open, close, destruction *)
OpenDiscipline == [][\A h \in Handles : (hd[h].alive /\ hd'[h].alive /\ hd'[h].open # hd[h].open) =>
                        /\ fs' = fs /\ \A g \in Handles : g # h => hd'[g] = hd[g]]_vars
(* C03: content changes only while some write handle is alive or being made;
   C02: at most one entry of one file changes per step, unless a truncating construction *)
FrameRule == [][\A f \in Files : fs'[f] # fs[f] =>
                 \/ /\ \E h \in Handles : hd[h].alive /\ hd[h].w /\ hd[h].f = f
                    /\ Cardinality({n \in GoodNames : fs'[f].st[n] # fs[f].st[n]}) + (IF fs'[f].bas # fs[f].bas THEN 1 ELSE 0) = 1
                    /\ \A g \in Files : g # f => fs'[g] = fs[g]
                 \/ \E h \in Handles : ~hd[h].alive /\ hd'[h].alive /\ hd'[h].w /\ fs'[f] = Blank(TRUE)]_vars
FilesNeverVanish == [][\A f \in Files : fs[f].ex => fs'[f].ex]_vars
=============================================================================
