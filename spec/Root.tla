-------------------------------- MODULE Root ---------------------------------
(* A schema compared with the root schema it is to be a restriction of.       *)
(*   I07  everything going beyond the root schema is found                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES c

Big == IOEnv.TIER = "thorough"

RECURSIVE Seq_(_)
Seq_(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seq_(s \ {x})

\* what is defined by the schema itself and by its operations; types are numbers
Types == {1, 2}
Ops == {"genesis", "t1", "t2", "e1", "e2"}
Occs == {"1-1", "0-1", "0-n", "1-n", "2-2"}
Yes == {"yes"}
Top == {<<"", "global">>, <<"", "owned">>, <<"", "val">>, <<"", "trans">>, <<"", "ext">>}
Places ==
  Top \cup {<<o, p>> : o \in Ops, p \in {"global", "assign", "val"}} \cup {<<o, "in">> : o \in {"t1", "t2"}} \cup {<<o, "redeem">> : o \in {"e1", "e2"}}
Defs(p) ==
  CASE p = <<"", "global">> -> {"t1", "t2", "t1many"}
    [] p = <<"", "owned">> -> {"rights", "amount", "t1", "t2", "media"}
    [] p[1] = "" \/ p[2] \in {"val", "redeem"} -> Yes
    [] OTHER -> Occs
OpOf(p, t) == CASE p = "trans" /\ t = 1 -> "t1" [] p = "trans" -> "t2" [] t = 1 -> "e1" [] OTHER -> "e2"

\* a schema is a set of facts: place, type, definition
Has(s, o) == o \in {"", "genesis"} \/ \E f \in s : f[1] \in {<<"", "trans">>, <<"", "ext">>} /\ OpOf(f[1][2], f[2]) = o
Beyond(s, root) == {<<f[1][1], f[1][2], f[2]>> : f \in {x \in s : x \notin root /\ Has(root, x[1][1])}}

------------------------------------------------------------------------------
Contents(p) ==
  {{}} \cup {{<<p, t, d>>} : t \in Types, d \in Defs(p)} \cup {{<<p, 1, d>>, <<p, 2, e>>} : d \in Defs(p), e \in Defs(p)}
\* the operation of the place is there
Ground(p) ==
  CASE p[1] = "t1" -> {<<<<"", "trans">>, 1, "yes">>} [] p[1] = "t2" -> {<<<<"", "trans">>, 2, "yes">>}
    [] p[1] = "e1" -> {<<<<"", "ext">>, 1, "yes">>} [] p[1] = "e2" -> {<<<<"", "ext">>, 2, "yes">>} [] OTHER -> {}
One(p) == {[s |-> Ground(p) \cup a, r |-> Ground(p) \cup b] : a \in Contents(p), b \in Contents(p)}
\* the root lacks the operation
Lacking(p) == {[s |-> Ground(p) \cup a, r |-> {}] : a \in Contents(p)}
Small(p) == LET d == CHOOSE d \in Defs(p) : TRUE IN {{}, {<<p, 1, d>>}, {<<p, 1, CHOOSE e \in Defs(p) : e # d \/ Defs(p) = {d}>>, <<p, 2, d>>}}
Two(p, q) == {[s |-> Ground(p) \cup Ground(q) \cup a[1] \cup a[2], r |-> Ground(p) \cup g \cup b[1] \cup b[2]] :
               a \in Small(p) \X Small(q), b \in Small(p) \X Small(q), g \in {Ground(q)} \cup (IF Big THEN {{}} ELSE {})}
Cases == UNION {One(p) \cup Lacking(p) : p \in Places} \cup UNION {Two(p, q) : p \in Places, q \in Places}
\* operations are there wherever they have contents
Fine(x) == /\ \A f \in x.s : Has(x.s, f[1][1])
           /\ \A f \in x.r : Has(x.r, f[1][1])
           /\ \A f \in x.s, g \in x.s : f[1] = g[1] /\ f[2] = g[2] => f = g
           /\ \A f \in x.r, g \in x.r : f[1] = g[1] /\ f[2] = g[2] => f = g

Init == c \in {x \in Cases : Fine(x)}
Next == FALSE /\ UNCHANGED c

Emit == PrintT(ToJson([f |-> "impl.schema", s |-> Seq_(c.s), r |-> Seq_(c.r), out |-> <<Seq_(Beyond(c.s, c.r))>>]))

Laws == (Beyond(c.s, c.r) = {}) <=> (c.s \subseteq c.r)
=============================================================================
