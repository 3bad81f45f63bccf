-------------------------------- MODULE View ---------------------------------
(* Reading a contract through an interface.                                  *)
(*   I04  state by name and filter                                           *)
(*   I05  history of a wallet                                                *)
(* A contract with a genesis g and transitions t1, t2 which have witnesses   *)
(* w1, w2.  The genesis has two rights the transitions close.  Other pieces  *)
(* of state are assigned to outputs p1, p2 or to the output 2 of the witness.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES ps, q

Suite == IOEnv.SUITE
Big   == IOEnv.TIER = "thorough"

RECURSIVE Seq_(_)
Seq_(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seq_(s \ {x})
RECURSIVE Sum(_)
Sum(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN x.v + Sum(s \ {x})

Piece(ty, at, out, v) == [ty |-> ty, at |-> at, out |-> out, v |-> v]
Fixed == <<Piece("R", "g", "r1", 0), Piece("R", "g", "r2", 0)>>
Wit(at) == CASE at = "g" -> "~" [] at = "t1" -> "w1" [] OTHER -> "w2"
\* outputs of a witness are numbered by it
Out(p) == IF p.out = "@" THEN Wit(p.at) ELSE p.out
Kind(ty) == CASE ty \in {"A", "F"} -> "fungible" [] ty = "R" -> "rights" [] ty = "D" -> "data" [] OTHER -> "attach"
Name(ty) == CASE ty = "A" -> "aa" [] ty = "F" -> "ff" [] ty = "D" -> "dd" [] ty = "R" -> "rr" [] OTHER -> "xx"

\* what is known of the contract: state of archived witnesses is not
Live(ord, at) == at = "g" \/ ord[Wit(at)] # "A"
All == Fixed \o ps
Entries(ord) == {[i |-> i, ty |-> All[i].ty, op |-> All[i].at, w |-> Wit(All[i].at), out |-> Out(All[i]), v |-> All[i].v] :
                   i \in {j \in DOMAIN All : Live(ord, All[j].at)}}

------------------------------------------------------------------------------
(* Filters are sets of outputs; `no` stands for those which do not look.     *)
Passes(f, out) == IF f.form = "no" THEN TRUE ELSE (out \in f.outs) # f.ex
Shown(ord, name, f) ==
  {e \in Entries(ord) : Passes(f, e.out) /\ CASE name = "all" -> TRUE [] OTHER -> Name(e.ty) = name}
Known(name) == name \in {"aa", "ff", "dd", "rr", "xx", "all"}
\* functions reading state of other kinds give nothing
Read(ord, kind, name, f) == {e \in Shown(ord, name, f) : kind = "any" \/ Kind(e.ty) = kind}

\* global state of the operations
Globals(ord, name) ==
  CASE name = "gone" -> {1}
    [] name = "gmany" -> {10} \cup (IF Live(ord, "t1") THEN {11} ELSE {}) \cup (IF Live(ord, "t2") THEN {12} ELSE {})
    [] name = "gthree" -> {}

------------------------------------------------------------------------------
(* The wallet: outputs and transactions                                      *)
Group(es, dir, w) ==
  LET types == {e.ty : e \in es} IN
  UNION {LET part == {e \in es : e.ty = t} IN
         IF Kind(t) = "fungible"
         THEN {[dir |-> dir, ty |-> t, ops |-> {e.op : e \in part}, v |-> Sum(part), to |-> {e.out : e \in part}, w |-> w, i |-> 0]}
         ELSE {[dir |-> dir, ty |-> t, ops |-> {e.op}, v |-> e.v, to |-> {e.out}, w |-> w, i |-> e.i] : e \in part}
         : t \in types}
History(ord, outs, wits) ==
  LET es == Entries(ord)
      In_(w) == {e \in es : e.w = w}
      Ours(w) == {e \in In_(w) : e.out \in outs} IN
  Group(Ours("~"), "issued", "~")
    \cup UNION {IF w \in wits THEN Group(In_(w) \ Ours(w), "sent", w) ELSE Group(Ours(w), "received", w) : w \in {"w1", "w2"}}

------------------------------------------------------------------------------
Types == {"A", "F", "D", "R", "X"}
Values(t) == IF t = "R" THEN {0} ELSE {1, 2}
Pieces ==
  {p \in UNION {{Piece(t, at, o, v) : at \in {"g", "t1", "t2"}, o \in {"p1", "p2", "@"}, v \in Values(t)} : t \in Types} :
     ~(p.at = "g" /\ (p.out = "@" \/ p.ty = "X"))}
Fungible == {p \in Pieces : Kind(p.ty) = "fungible" /\ p.v = 1}
Ords == {[w1 |-> a, w2 |-> b] : a \in {"T", "A", "M5"}, b \in {"T", "M6"}}
Wallets == {{}, {"p1"}, {"p1", "w1"}, {"p2", "r1", "w2"}, {"p1", "p2", "r1", "r2", "w1", "w2"}}
Wits == {{}, {"w1"}, {"w1", "w2"}}
\* the filter of witnesses may let allocations of the genesis through: they have no witness
Queries5 == {[outs |-> o, wits |-> w, g |-> g, ord |-> r] : o \in Wallets, w \in Wits, g \in BOOLEAN, r \in Ords}
Rare(x) == x.g \/ x.ord.w2 = "M6" \/ (x.ord.w1 = "A" /\ x.outs = {})
\* with three pieces of any kind
Rare53(x) == x.outs # {"p1", "w1"} \/ x.wits = {} \/ x.ord.w1 # "T"
Filters ==
  {[form |-> f, outs |-> o, ex |-> e] :
     f \in {"vec", "slice", "array", "hashset", "btreeset", "hashmap", "btreemap", "ref", "mut", "some"}, o \in {{}, {"p1"}, {"p1", "w1"}}, e \in BOOLEAN}
    \cup {[form |-> "out", outs |-> {o}, ex |-> e] : o \in {"p1", "p2", "w1", "w2"}, e \in BOOLEAN}
    \cup {[form |-> f, outs |-> {}, ex |-> FALSE] : f \in {"all", "none"}}
Form(f) == IF f.form \in {"all", "none"} THEN [f EXCEPT !.form = "no"] ELSE f
Queries4 ==
  {[name |-> n, kind |-> k, ft |-> f, ord |-> r] :
     n \in {"aa", "ff", "dd", "rr", "xx", "zz"}, k \in {"fungible", "data", "rights", "attach"}, f \in Filters, r \in Ords}
    \cup {[name |-> n, kind |-> "global", ft |-> [form |-> "all", outs |-> {}, ex |-> FALSE], ord |-> r] :
            n \in {"gone", "gthree", "gmany", "aa", "zz"}, r \in Ords}
    \cup {[name |-> "all", kind |-> "any", ft |-> f, ord |-> r] : f \in Filters, r \in Ords}
OfKind(x) == x.kind = "global" \/ x.name = "all" \/ \E t \in Types : Name(t) = x.name /\ Kind(t) = x.kind
Rare4(x) == x.ord.w2 = "M6" \/ x.ft.form \notin {"vec", "all", "out"} \/ ~OfKind(x)
\* with more pieces only what shows them is of interest
Rare42(x) == x.kind = "global" \/ x.ft.form # "vec" \/ x.ft.outs = {} \/ x.ord.w1 = "M5" \/ (x.name # "all" /\ x.name \notin {Name(ps[i].ty) : i \in DOMAIN ps})

Queries43 == {x \in Queries4 : x.name = "all" /\ ~x.ft.ex /\ ~Rare4(x)}

\* the pieces come in the order of this
Rank(p) ==
  (CASE p.ty = "A" -> 0 [] p.ty = "F" -> 1 [] p.ty = "D" -> 2 [] p.ty = "R" -> 3 [] OTHER -> 4) * 100
    + (CASE p.at = "g" -> 0 [] p.at = "t1" -> 1 [] OTHER -> 2) * 20 + (CASE p.out = "p1" -> 0 [] p.out = "p2" -> 1 [] OTHER -> 2) * 4 + p.v
Rich == <<Piece("A", "g", "p1", 1), Piece("A", "t1", "p1", 2), Piece("A", "t1", "@", 2), Piece("F", "g", "p2", 1), Piece("F", "t1", "@", 1), Piece("F", "t2", "p2", 2),
          Piece("D", "g", "p1", 1), Piece("D", "t1", "p2", 1), Piece("D", "t2", "@", 2), Piece("R", "t1", "p1", 0), Piece("R", "t2", "p1", 0),
          Piece("X", "t1", "p1", 1), Piece("X", "t2", "@", 2)>>

More(p) == IF ps = <<>> THEN TRUE ELSE Rank(ps[Len(ps)]) <= Rank(p)
NoQuery == [none |-> TRUE]
Init == /\ ps \in {<<>>, Rich}
        /\ q = NoQuery
Max_ == IF Big THEN 3 ELSE 2
Next ==
  /\ q = NoQuery
  /\ \/ /\ Len(ps) < Max_ + 1
        /\ \E p \in IF Len(ps) < Max_ THEN Pieces ELSE Fungible :
             /\ Len(ps) < Max_ \/ (\A i \in DOMAIN ps : ps[i] \in Fungible)
             /\ More(p)
             /\ ps' = Append(ps, p)
        /\ UNCHANGED q
     \/ /\ UNCHANGED ps
        /\ IF Suite = "I05"
           THEN \E x \in Queries5 : (Rare(x) => Len(ps) < 2 \/ Len(ps) > 5) /\ (Big /\ Len(ps) = Max_ /\ Rare53(x) => FALSE) /\ q' = x
           ELSE \E x \in IF Len(ps) \in 3..4 THEN Queries43 ELSE Queries4 : (Rare4(x) => Len(ps) < 1 \/ Len(ps) > 5) /\ (Rare42(x) => Len(ps) < 2 \/ Len(ps) > 5) /\ q' = x

------------------------------------------------------------------------------
Shows(es) == LET l == Seq_(es) IN [i \in DOMAIN l |-> [ty |-> l[i].ty, op |-> l[i].op, w |-> l[i].w, out |-> l[i].out, v |-> l[i].v]]
Hist(hs) == LET l == Seq_(hs) IN
  [i \in DOMAIN l |-> [dir |-> l[i].dir, ty |-> l[i].ty, ops |-> Seq_(l[i].ops), v |-> l[i].v, to |-> Seq_(l[i].to), w |-> l[i].w]]
Out5 == [f |-> "view.history", l |-> ps, ord |-> q.ord, outs |-> Seq_(q.outs), wits |-> Seq_(q.wits), g |-> q.g,
         out |-> <<Hist(History(q.ord, q.outs, q.wits))>>]
Out4 == [f |-> "view.state", l |-> ps, ord |-> q.ord, name |-> q.name, kind |-> q.kind,
         ft |-> [form |-> q.ft.form, outs |-> Seq_(q.ft.outs), ex |-> q.ft.ex],
         out |-> <<IF q.kind = "global"
                  THEN [shows |-> IF q.name \in {"gone", "gthree", "gmany"} THEN Seq_(Globals(q.ord, q.name)) ELSE "refused"]
                  ELSE IF Known(q.name) THEN [shows |-> Shows(Read(q.ord, q.kind, q.name, Form(q.ft)))] ELSE [shows |-> "refused"]>>]
Emit == q = NoQuery \/ PrintT(ToJson(IF Suite = "I05" THEN Out5 ELSE Out4))

\* each piece of state which came to the wallet is seen once, unless it is change
Laws ==
  q # NoQuery /\ Suite = "I05" =>
    LET h == History(q.ord, q.outs, q.wits)
        Mine(t) == {e \in Entries(q.ord) : e.ty = t /\ e.out \in q.outs /\ e.w \notin q.wits}
        Come(t) == {x \in h : x.ty = t /\ x.dir # "sent"}
        Gone(t) == {e \in Entries(q.ord) : e.ty = t /\ e.out \notin q.outs /\ e.w \in q.wits}
        Sent(t) == {x \in h : x.ty = t /\ x.dir = "sent"} IN
    /\ \A t \in Types : Sum(Mine(t)) = Sum(Come(t)) /\ Sum(Gone(t)) = Sum(Sent(t))
    /\ \A x \in h : x.dir = "sent" => x.w \in q.wits /\ x.to \cap q.outs = {}
    /\ \A x \in h : x.dir # "sent" => x.to \subseteq q.outs
=============================================================================
