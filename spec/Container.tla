----------------------------- MODULE Container -----------------------------
(* Containers (contracts, transfers, kits) with their identifiers, files and *)
(* armored texts. A container is a record of parts, each taken from a small  *)
(* alphabet of concrete pieces known to the harness by name.                 *)
(*   C01  what is written in some form reads back as the same container      *)
(*   C02  what is damaged or of another type is not read                     *)
(*   C04  identifiers are equal exactly for containers equal in all parts    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE case

Suite == IOEnv.SUITE
Big   == IOEnv.TIER = "thorough"

Some(n, s) == {x \in SUBSET s : Cardinality(x) <= n}
RECURSIVE Seq_(_)
Seq_(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seq_(s \ {x})

------------------------------------------------------------------------------
(* Parts                                                                     *)
ConsDims == {"kind", "con", "glev", "wbs", "lev", "tx", "exts", "terms", "ifaces", "suppls", "types", "scripts", "atts", "sigs"}
KitDims  == {"kind", "schemas", "ifaces", "iimpls", "suppls", "types", "scripts", "sigs"}
\* signatures: content, identity, signature
Sigs == {<<"schema", "alice", 1>>, <<"schema", "alice", 2>>, <<"schema", "bob", 1>>, <<"iface", "alice", 1>>, <<"genesis", "alice", 1>>,
         <<"iimpl", "bob", 1>>, <<"suppl", "bob", 2>>}
OneEach(s) == \A x, y \in s : x[1] = y[1] /\ x[2] = y[2] => x = y
Terms == {<<"b1", "s1">>, <<"b1", "s2">>, <<"b2", "s1">>, <<"b2", "s2">>}
TermMap(s) == \A x, y \in s : x[1] = y[1] => x = y
Values(d) ==
  CASE d = "con" -> {"c1", "c2"}
    [] d = "glev" -> {"R", "S"}
    [] d = "wbs" -> SUBSET {"b1", "b2"}
    [] d = "lev" -> {"R", "S"}
    [] d = "tx" -> {TRUE, FALSE}
    [] d = "exts" -> SUBSET {"e1", "e2"}
    [] d = "terms" -> {s \in SUBSET Terms : TermMap(s)}
    [] d = "ifaces" -> SUBSET {"i1", "i2", "i3"}
    [] d = "iimpls" -> SUBSET {"m1", "m2", "m3"}
    [] d = "schemas" -> SUBSET {"0", "1"}
    [] d = "suppls" -> Some(3, {"u1", "u2", "u3", "u4"})
    [] d = "types" -> {"none", "amount", "all"}
    [] d = "scripts" -> SUBSET {"l1", "l2"}
    [] d = "atts" -> SUBSET {"a1", "a2"}
    [] d = "sigs" -> {s \in Some(IF Big THEN 3 ELSE 2, Sigs) : OneEach(s)}

Base(k) ==
  IF k = "kit"
  THEN [d \in KitDims |-> CASE d = "kind" -> k [] d = "types" -> "amount" [] OTHER -> {}]
  ELSE [d \in ConsDims |-> CASE d = "kind" -> k [] d = "con" -> "c1" [] d = "glev" -> "R" [] d = "lev" -> "R" [] d = "tx" -> TRUE
                             [] d = "types" -> "amount" [] d = "wbs" -> {"b1"} [] OTHER -> {}]
Differs(x) == {d \in DOMAIN x \ {"kind"} : x[d] # Base(x.kind)[d]}
Dims(k) == IF k = "kit" THEN KitDims ELSE ConsDims

\* How many parts the container has more than the other ones: these alone are combined freely
Free == {"kind"}
Deep(k) == IF Big THEN 3 ELSE 2

\* what is not in the container does not matter
Norm(x) ==
  IF x.kind = "kit" THEN x
  ELSE [x EXCEPT !.lev = IF "b1" \in x.wbs THEN @ ELSE "-", !.tx = ("b1" \in x.wbs) => @]

------------------------------------------------------------------------------
(* Forms and readers                                                         *)
Kinds == {"contract", "transfer", "kit"}
Forms == {"binary", "file", "text", "armored", "universal", "universalfile", "universaltext"}
\* readers for each of the forms
Readers(f) ==
  CASE f \in {"binary", "universal"} -> {"load", "universal"}
    [] f \in {"file", "universalfile"} -> {"loadfile", "universalfile"}
    [] OTHER -> {"parse", "loadarmored"}
\* a reader is asked for some kind of container, or recognizes it
Read(kind, f, r, asked) == IF r \in {"universal", "universalfile"} \/ asked = kind THEN "same" ELSE "refused"

\* Armor headers
SupplOf(x, c) == {u \in x.suppls : (u = "u1" /\ c = "0") \/ (u = "u2" /\ c = "c1") \/ (u = "u3" /\ c = "i1") \/ (u = "u4" /\ c = "m1")}
Schema(x) == IF x.con = "c1" THEN "0" ELSE "1"
HConsignment(x) ==
  {<<"Version", "2", {}>>, <<"Type", x.kind, {}>>, <<"Contract", x.con, {}>>, <<"Schema", Schema(x), {}>>}
    \cup {<<"Interface", i, {}>> : i \in x.ifaces} \cup {<<"Terminal", t[1], {}>> : t \in x.terms}
HKit(x) ==
  {<<"Version", "2", {}>>, <<"Type-System", x.types, {}>>} \cup {<<"Alu-Lib", l, {}>> : l \in x.scripts}
    \cup {<<"Schema", s, SupplOf(x, s)>> : s \in x.schemas}
    \cup {<<"Interface", i, SupplOf(x, i)>> : i \in x.ifaces}
    \cup {<<"Implementation", m, SupplOf(x, m)>> : m \in x.iimpls}
Headers(x) == {<<"Id", "own", {}>>} \cup (IF x.kind = "kit" THEN HKit(x) ELSE HConsignment(x))

------------------------------------------------------------------------------
(* Damages; what may come out: "same", "other" (a different container of the *)
(* type asked for), "refused"                                                *)
Only(k, f, x) == [k |-> k, f |-> f, x |-> x]
Binary ==
  {[d |-> "magic", at |-> i, out |-> {"refused"}] : i \in 0..6}
    \cup {[d |-> "cut", at |-> i, out |-> {"refused"}] : i \in 0..(IF Big THEN 2000 ELSE 600)}
    \cup {[d |-> "cutend", at |-> i, out |-> {"refused"}] : i \in 1..40}
    \cup {[d |-> "flag", at |-> i, out |-> {"refused"}] : i \in {0, 2, 255}}
    \cup {[d |-> "version", at |-> i, out |-> {"refused"}] : i \in {0, 1, 3, 255}}
    \cup {[d |-> "flip", at |-> i, out |-> {"refused", "other"}] : i \in 0..(IF Big THEN 2500 ELSE 800)}
    \cup {[d |-> "set", at |-> i, out |-> {"refused", "other"}] : i \in 0..(IF Big THEN 2500 ELSE 800)}
    \cup {[d |-> "empty", at |-> 0, out |-> {"refused"}]}
    \cup {[d |-> "text", at |-> 0, out |-> {"refused"}]}
\* for contracts and transfers: labelled as the other one, witness transaction with an excessive number of inputs
Relabel == {[d |-> "inputs", at |-> 0, out |-> {"refused", "other"}]} \cup {[d |-> "label", at |-> i, out |-> {"refused"}] : i \in 0..2}
Text ==
  {[d |-> "char", at |-> i, out |-> {"refused"}] : i \in 0..(IF Big THEN 2000 ELSE 400)}
    \cup {[d |-> "dropchar", at |-> i, out |-> {"refused"}] : i \in 0..(IF Big THEN 1000 ELSE 100)}
    \cup {[d |-> "dropline", at |-> i, out |-> {"refused"}] : i \in 0..12}
    \cup {[d |-> "swaplines", at |-> i, out |-> {"refused"}] : i \in 0..12}
    \cup {[d |-> "addline", at |-> i, out |-> {"refused"}] : i \in 0..12}
    \cup {[d |-> "checksum", at |-> i, out |-> {"refused"}] : i \in 0..63}
    \cup {[d |-> "id", at |-> i, out |-> {"refused"}] : i \in 0..47}
    \cup {[d |-> d, at |-> 0, out |-> {"refused"}] :
            d \in {"otherid", "noid", "twoids", "emptyid", "nobegin", "emptybody", "nothing", "title", "endonly", "payload", "truncated"}}
    \cup {[d |-> d, at |-> 0, out |-> {"refused", "same"}] : d \in {"noend", "nochecksum", "noblank", "type"}}
    \cup {[d |-> d, at |-> 0, out |-> {"same"}] : d \in {"crlf", "prologue", "epilogue", "none"}}
Damages(f) == IF f \in {"binary", "file"} THEN Binary ELSE Text

\* containers which get damaged
Rich(k) ==
  IF k = "kit"
  THEN [Base(k) EXCEPT !["schemas"] = {"0"}, !["ifaces"] = {"i1"}, !["iimpls"] = {"m1"}, !["suppls"] = {"u1"}, !["scripts"] = {"l1"},
                       !["sigs"] = {<<"schema", "alice", 1>>}]
  ELSE [Base(k) EXCEPT !["wbs"] = {"b1", "b2"}, !["terms"] = {<<"b1", "s1">>}, !["ifaces"] = {"i1"}, !["suppls"] = {"u1"},
                       !["scripts"] = {"l1"}, !["atts"] = {"a1"}, !["sigs"] = {<<"schema", "alice", 1>>}]
Plain(k) == [Base(k) EXCEPT !["types"] = "none"]

------------------------------------------------------------------------------
Json_(x) == [d \in DOMAIN x |-> IF d \in {"kind", "con", "glev", "lev", "tx", "types"} THEN x[d] ELSE Seq_(x[d])]
ShortForms == {<<"binary", "load">>, <<"text", "parse">>}

Init ==
  \/ Suite \in {"C01", "C04"} /\ \E k \in Kinds : case = [s |-> "parts", x |-> Base(k)]
  \/ Suite = "C02" /\ \E k \in Kinds, p \in {"plain", "rich"} : case = [s |-> "damage", x |-> IF p = "rich" THEN Rich(k) ELSE Plain(k)]

\* another part of the container is set
Set ==
  /\ case.s = "parts"
  /\ Cardinality(Differs(case.x)) < Deep(case.x.kind)
  /\ \E d \in Dims(case.x.kind) \ ({"kind"} \cup Differs(case.x)) : \E v \in Values(d) :
       case' = [case EXCEPT !.x[d] = v]
\* it is written in some form and read
WriteRead ==
  /\ case.s = "parts" /\ Suite = "C01"
  /\ \E f \in Forms : \E r \in Readers(f), asked \in Kinds :
       /\ Cardinality(Differs(case.x)) > 1 => f \in {"binary", "text"} /\ r \in {"load", "parse"} /\ asked = case.x.kind
       /\ (r \in {"universal", "universalfile"} => asked = case.x.kind)
       /\ case' = [s |-> "io", x |-> case.x, form |-> f, reader |-> r, asked |-> asked]
\* it is built in another order
Identify ==
  /\ case.s = "parts" /\ Suite = "C04"
  /\ \E rev \in BOOLEAN : case' = [s |-> "id", x |-> case.x, rev |-> rev]
\* it is damaged
Damage ==
  /\ case.s = "damage"
  /\ \E f \in {"binary", "file", "text", "armored"} :
       \E m \in Damages(f) \cup (IF f \in {"binary", "file"} /\ case.x.kind # "kit" THEN Relabel ELSE {}) :
         \E r \in Readers(f) :
           /\ f \in {"file", "armored"} => m.d \notin {"flip", "set", "cut", "char", "dropchar"} \/ m.at % 37 = 0
           /\ case' = [s |-> "bad", x |-> case.x, form |-> f, reader |-> r, m |-> m]
Next == Set \/ WriteRead \/ Identify \/ Damage

Out ==
  CASE case.s = "io" ->
         [f |-> "container.io", x |-> Json_(case.x), form |-> case.form, reader |-> case.reader, asked |-> case.asked,
          out |-> <<[read |-> Read(case.x.kind, case.form, case.reader, case.asked),
                     headers |-> IF case.form \in {"text", "armored", "universaltext"} THEN Seq_(Headers(case.x)) ELSE <<>>]>>]
    [] case.s = "id" -> [f |-> "container.id", x |-> Json_(case.x), rev |-> case.rev, class |-> Json_(Norm(case.x)), out |-> <<>>]
    [] case.s = "bad" ->
         [f |-> "container.bad", x |-> Json_(case.x), form |-> case.form, reader |-> case.reader, d |-> case.m.d, at |-> case.m.at,
          out |-> Seq_(case.m.out)]
Emit == case.s \in {"parts", "damage"} \/ PrintT(ToJson(Out))
\* Laws of the specification
Laws ==
  /\ case.s = "io" => (Read(case.x.kind, case.form, case.reader, case.x.kind) = "same")
  /\ case.s = "bad" => ("same" \in case.m.out => case.form \in {"text", "armored"})
  /\ case.s = "id" => Norm(Norm(case.x)) = Norm(case.x)
=============================================================================
