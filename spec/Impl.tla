-------------------------------- MODULE Impl ---------------------------------
(* Implementations of interfaces: names mapped to types of a schema.         *)
(*   I02  wrong implementations are found                                    *)
(*   I03  implementations of an interface serve its ancestors                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES c

Suite == IOEnv.SUITE
Big   == IOEnv.TIER = "thorough"

RECURSIVE Seq_(_)
Seq_(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seq_(s \ {x})

Cats == {"meta", "global", "assign", "val", "trans", "ext", "err"}
Nothing == [t \in Cats |-> {}]
InSchema == {1, 2}

\* i: names of an interface per category, m: pairs of a name and a type
Problems(i, m) ==
  UNION {
    {<<"missing", t, n>> : n \in {x \in i[t] : t # "err" /\ ~\E p \in m[t] : p[1] = x}}
      \cup {<<"schema", t, p[1]>> : p \in {x \in m[t] : t # "err" /\ x[2] \notin InSchema}}
      \cup {<<"repeated", t, p[1]>> : p \in {x \in m[t] : t # "err" /\ \E y \in m[t] : y[1] = x[1] /\ y # x}}
      \cup {<<"unknown", t, p[1]>> : p \in {x \in m[t] : t = "err" /\ x[1] \notin i[t]}}
    : t \in Cats}
\* operations which may be skipped may be missing
Maybe(ps, opt) == {p \in ps : opt /\ p[1] = "missing" /\ p[2] \in {"trans", "ext"}}
Time(t) == IF t = "past" THEN {} ELSE {<<"time", t, "">>}

Abstracted(m, parent) == [t \in Cats |-> {p \in m[t] : p[1] \in parent[t]}]

\* an interface is served by its own implementation or by the one of its nearest ancestor
Served(inh, has, own) ==
  IF own THEN "own"
  ELSE LET is == {i \in DOMAIN inh : inh[i] \in has} IN
       IF is = {} THEN "none" ELSE inh[CHOOSE i \in is : \A j \in is : j <= i]

------------------------------------------------------------------------------
Names == {{}, {"x"}, {"y"}, {"x", "y"}}
Mappings == LET ps == {<<n, i>> : n \in {"x", "y", "w"}, i \in {1, 2, 9}} IN {s \in SUBSET ps : Cardinality(s) <= 3}
Few == {{}, {<<"x", 1>>}, {<<"x", 9>>}, {<<"x", 1>>, <<"x", 2>>}, {<<"x", 1>>, <<"y", 1>>}, {<<"y", 2>>, <<"w", 9>>}}
Check(i, m, o, t) == [k |-> "check", i |-> i, m |-> m, opt |-> o, time |-> t]
Checks ==
  {Check([Nothing EXCEPT ![t] = n], [Nothing EXCEPT ![t] = m], o, "past") : t \in Cats, n \in Names, m \in Mappings, o \in BOOLEAN}
    \cup {Check([Nothing EXCEPT ![t] = n, ![u] = n], [Nothing EXCEPT ![t] = m, ![u] = l], FALSE, "past") : t \in Cats, u \in Cats, n \in Names, m \in Few, l \in Few}
    \cup {Check([t \in Cats |-> n], [t \in Cats |-> m], FALSE, w) : n \in Names, m \in Few, w \in {"past", "now", "future", "invalid"}}
\* what the ancestor has in each of the categories
Abstract == {[k |-> "abstract", p |-> p, at |-> a, flip |-> f] : p \in [Cats -> IF Big THEN Names ELSE {{}, {"x"}, {"x", "y"}}], a \in {"first", "last", "none"}, f \in BOOLEAN}
Inherits == {<<>>} \cup {<<i>> : i \in {"1", "2", "3"}} \cup {q \in {"1", "2", "3"} \X {"1", "2", "3"} : q[1] # q[2]}
              \cup {q \in {"1", "2", "3"} \X {"1", "2", "3"} \X {"1", "2", "3"} : Cardinality({q[1], q[2], q[3]}) = 3}
Serve == {[k |-> "serve", inh |-> q, has |-> h, own |-> o, by |-> b] : q \in Inherits, h \in SUBSET {"1", "2", "3"}, o \in BOOLEAN, b \in {"name", "id"}}

Init == IF Suite = "I02" THEN c \in Checks ELSE c \in Abstract \cup Serve
Next == FALSE /\ UNCHANGED c

------------------------------------------------------------------------------
Lists(f) == [t \in Cats |-> Seq_(f[t])]
All == [t \in Cats |-> {"x", "y"}]
Map(flip) == [t \in Cats |-> IF flip THEN {<<"x", 2>>, <<"y", 1>>} ELSE {<<"x", 1>>, <<"y", 2>>}]
OutCheck ==
  LET ps == Problems(c.i, c.m) \cup (IF c.time \in {"past", "now"} THEN {} ELSE Time(c.time))
      qs == {ps \ s : s \in SUBSET Maybe(ps, c.opt)} IN
  [f |-> "impl.check", i |-> Lists(c.i), m |-> Lists(c.m), opt |-> c.opt, time |-> c.time,
   out |-> [j \in 1..Cardinality(qs) |-> Seq_(Seq_(qs)[j])]]
OutAbstract ==
  [f |-> "impl.abstract", p |-> Lists(c.p), at |-> c.at, m |-> Lists(Map(c.flip)),
   out |-> IF c.at = "none" THEN <<"refused">> ELSE <<Lists(Abstracted(Map(c.flip), c.p))>>]
OutServe == [f |-> "impl.serve", inh |-> c.inh, has |-> Seq_(c.has), own |-> c.own, by |-> c.by, out |-> <<Served(c.inh, c.has, c.own)>>]
Emit ==
  PrintT(ToJson(CASE c.k = "check" -> OutCheck [] c.k = "abstract" -> OutAbstract [] OTHER -> OutServe))

Laws ==
  c.k = "abstract" => Problems(c.p, Abstracted(Map(c.flip), c.p)) = {}
=============================================================================
