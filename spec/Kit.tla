-------------------------------- MODULE Kit ----------------------------------
(* Histories of a stock importing kits.                                      *)
(*   K01  schemata, interfaces, implementations, types, scripts              *)
(*   K02  signatures and supplements                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES h, st

Suite == IOEnv.SUITE
Big   == IOEnv.TIER = "thorough"

RECURSIVE Seq_(_)
Seq_(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seq_(s \ {x})

------------------------------------------------------------------------------
(* K01.  j1 is another interface with the name of i1; m11b another           *)
(* implementation of i1 for s1.                                              *)
Schemata == {"s1", "s2"}
Ifaces == {"i1", "i2", "j1"}
Impls == {"m11", "m11b", "m12", "m21", "m1j"}
Of(m) == CASE m \in {"m11", "m11b"} -> [s |-> "s1", i |-> "i1"] [] m = "m12" -> [s |-> "s1", i |-> "i2"]
           [] m = "m21" -> [s |-> "s2", i |-> "i1"] [] m = "m1j" -> [s |-> "s1", i |-> "j1"]
Name(i) == IF i = "j1" THEN "i1" ELSE i
Same(m, n) == Of(m).s = Of(n).s /\ Name(Of(m).i) = Name(Of(n).i)
TypesOf(x) == CASE x \in {"s1", "i1"} -> {"ta"} [] x \in {"i2", "j1"} -> {"tb"} [] x = "s2" -> {"ta", "tb"}
LibsOf(s) == IF s = "s2" THEN {"l1", "l2"} ELSE {}

K(s, i, m, t, l) == [s |-> s, i |-> i, m |-> m, t |-> t, l |-> l]
Full == {"ta", "tb"}
Pool ==
  {K({"s1"}, {"i1"}, {"m11"}, {"ta"}, {}), K({"s1"}, {"i2"}, {"m12"}, Full, {}), K({}, {}, {"m11b"}, {}, {}),
   K({"s2"}, {"i1"}, {"m21"}, Full, {"l1", "l2"}), K({"s2"}, {}, {"m21"}, {}, {"l1"}), K({"s1"}, {"j1"}, {"m1j"}, Full, {}),
   K({}, {"i2"}, {}, {}, {}), K({}, {}, {}, Full, {"l1", "l2"}), K({"s1"}, {}, {}, {"ta"}, {}), K({}, {"i1"}, {}, {}, {"l2"}),
   K({}, {}, {"m12", "m21"}, {"tb"}, {"l1"}), K({"s1", "s2"}, {"i1", "i2"}, {"m11b", "m12", "m21"}, Full, {"l1", "l2"})}
\* of implementations with the same place in a kit only one can be kept
Kits == {k \in {K(s, i, m, t, l) : s \in SUBSET Schemata, i \in SUBSET Ifaces, m \in SUBSET {"m11", "m12", "m21", "m1j"},
                                   t \in SUBSET Full, l \in {{}, {"l1"}, {"l1", "l2"}}} :
           \A a, b \in k.m : a # b => ~Same(a, b)}

Empty == [s |-> {}, i |-> {}, m |-> {}, t |-> {}, l |-> {}]
Refused(x, k) == \E m \in k.m : Of(m).s \notin x.s \cup k.s \/ Of(m).i \notin x.i \cup k.i
Import(x, k) ==
  IF Refused(x, k) THEN x
  ELSE [s |-> x.s \cup k.s, i |-> x.i \cup k.i, m |-> {m \in x.m : \A n \in k.m : ~Same(m, n)} \cup k.m,
        t |-> x.t \cup k.t, l |-> x.l \cup k.l]

ImplsOf(x, s) == {m \in x.m : Of(m).s = s}
\* whether contracts can be issued
Issues(x, s, i) ==
  /\ s \in x.s /\ i \in x.i /\ \E m \in x.m : Of(m) = [s |-> s, i |-> i]
  /\ TypesOf(s) \cup TypesOf(i) \subseteq x.t /\ LibsOf(s) \subseteq x.l
KitOf(x, s) ==
  LET is == {Of(m).i : m \in ImplsOf(x, s)} IN
  K({s}, is, ImplsOf(x, s), TypesOf(s) \cup UNION {TypesOf(i) : i \in is}, LibsOf(s))
Exports(x, s) == s \in x.s /\ KitOf(x, s).t \subseteq x.t /\ KitOf(x, s).l \subseteq x.l

Put(k) == [s |-> Seq_(k.s), i |-> Seq_(k.i), m |-> Seq_(k.m), t |-> Seq_(k.t), l |-> Seq_(k.l)]
Issuing(x) == Seq_({<<s, i>> \in Schemata \X Ifaces : Issues(x, s, i)})
See1(x) ==
  [s |-> Seq_(x.s), i |-> Seq_(x.i), m |-> Seq_(x.m), l |-> Seq_(x.l), t |-> Seq_(x.t), issue |-> Issuing(x),
   names |-> Seq_({Name(i) : i \in x.i}),
   export |-> [s \in Schemata |-> IF Exports(x, s) THEN [kit |-> Put(KitOf(x, s)), issue |-> Issuing(Import(Empty, KitOf(x, s)))]
                                                  ELSE [kit |-> "refused", issue |-> <<>>]]]

------------------------------------------------------------------------------
(* K02.  A contract with its schema, interface and implementation, signed by *)
(* a and b; `other` stands for something which is not of the contract.       *)
Contents == {"genesis", "schema", "iface", "impl", "other"}
Step(op, via, c, id, v) == [op |-> op, via |-> via, c |-> c, id |-> id, v |-> v]
Trusts == {Step("trust", "", "", id, l) : id \in {"a", "b"}, l \in {"malicious", "untrusted", "trusted"}}
Signs == {Step("sign", via, c, id, v) : via \in {"kit", "contract"}, c \in Contents, id \in {"a", "b"}, v \in {"1", "2"}}
Suppls == {Step("suppl", via, c, "", v) : via \in {"kit", "contract"}, c \in Contents, v \in {"1", "2"}}
\* an import which is refused, since it implements an interface nobody has
Fails == {Step("fail", via, "genesis", id, "1") : via \in {"kit", "contract"}, id \in {"a"}}
Steps2 == Trusts \cup Signs \cup Suppls \cup Fails
Few(x) == x.op = "trust" \/ x.op = "fail" \/ (x.via = "kit" /\ x.c \in {"genesis", "iface"})

Start2 == [trust |-> [id \in {"a", "b"} |-> "unknown"], sigs |-> {}, suppl |-> {}]
Do2(x, s) ==
  CASE s.op = "trust" -> [x EXCEPT !.trust[s.id] = s.v]
    [] s.op = "sign" -> IF x.trust[s.id] = "malicious" THEN x
                        ELSE [x EXCEPT !.sigs = {g \in @ : ~(g[1] = s.c /\ g[2] = s.id)} \cup {<<s.c, s.id, s.v>>}]
    [] s.op = "fail" -> x
    [] s.op = "suppl" -> [x EXCEPT !.suppl = @ \cup {<<s.c, s.v>>}]
Mine == Contents \ {"other"}
\* one of supplements of each content goes with the contract
See2(x) == [known |-> Seq_(x.sigs), suppl |-> Seq_(x.suppl),
            export |-> Seq_({g \in x.sigs : g[1] \in Mine}),
            with |-> Seq_({c \in Mine : \E u \in x.suppl : u[1] = c})]

------------------------------------------------------------------------------
Init == /\ h = <<>>
        /\ st = IF Suite = "K01" THEN Empty ELSE Start2
Next1 ==
  \/ /\ Len(h) < (IF Big THEN 4 ELSE 3)
     /\ \A i \in DOMAIN h : h[i] \in Pool
     /\ \E k \in Pool : h' = Append(h, k) /\ st' = Import(st, k)
  \/ /\ Len(h) < 2
     /\ \E k \in Kits : /\ IF h = <<>> THEN TRUE ELSE h[1] \in Pool /\ (Big \/ (h[1].s = {"s1"} /\ h[1].m # {} /\ k.t # {"ta"} /\ k.l # {"l1"}))
                        /\ h' = Append(h, k) /\ st' = Import(st, k)
Next2 ==
  \/ /\ Len(h) < 2
     /\ \E s \in Steps2 : h' = Append(h, s) /\ st' = Do2(st, s)
  \/ /\ Len(h) < (IF Big THEN 4 ELSE 3)
     /\ \A i \in DOMAIN h : Few(h[i])
     /\ \E s \in Steps2 : (Few(s) \/ (Big /\ Len(h) = 2)) /\ h' = Append(h, s) /\ st' = Do2(st, s)
Next == IF Suite = "K01" THEN Next1 ELSE Next2

RECURSIVE Results(_, _)
Results(x, l) == IF l = <<>> THEN <<>> ELSE <<~Refused(x, Head(l))>> \o Results(Import(x, Head(l)), Tail(l))
Out1 == [f |-> "kit.run", kits |-> [i \in DOMAIN h |-> Put(h[i])],
         out |-> <<[ret |-> Results(Empty, h), see |-> See1(st)]>>]
Out2 == [f |-> "kit.sign", steps |-> h, out |-> <<See2(st)>>]
\* implementations of two interfaces with one name
One == CHOOSE k \in Pool : k.m = {"m11"}
Two == CHOOSE k \in Pool : k.m = {"m1j"}
Twin == [f |-> "kit.twin", kits |-> <<Put(One), Put(Two)>>, out |-> <<[issue |-> <<<<"s1", "i1">>, <<"s1", "j1">>>>]>>]
Emit == /\ PrintT(ToJson(IF Suite = "K01" THEN Out1 ELSE Out2))
        /\ Suite = "K01" /\ h = <<>> => PrintT(ToJson(Twin))

\* nothing gets lost but implementations giving their place to others; what is exported can be used elsewhere
Laws ==
  Suite = "K01" =>
    /\ \A m \in st.m : Of(m).s \in st.s /\ Of(m).i \in st.i
    /\ \A s \in st.s : Exports(st, s) =>
         LET x == Import(Empty, KitOf(st, s)) IN
         /\ ~Refused(Empty, KitOf(st, s))
         /\ \A i \in Ifaces : Issues(st, s, i) => Issues(x, s, i)
Grows == [][Suite = "K01" => st.s \subseteq st'.s /\ st.i \subseteq st'.i /\ st.t \subseteq st'.t /\ st.l \subseteq st'.l
              /\ \A m \in st.m : \E n \in st'.m : Same(m, n)]_<<h, st>>
=============================================================================
