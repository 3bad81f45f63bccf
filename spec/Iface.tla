-------------------------------- MODULE Iface --------------------------------
(* Interfaces: a map from items to what is required of them.                 *)
(*   I01  extending an interface loses nothing of what it requires           *)
(*   I06  inconsistent interfaces are found                                  *)
(* Items are addressed by paths:                                             *)
(*   meta/n, global/n, assign/n, val/n, err/n, default                       *)
(*   gen//.., trans/n/.., ext/n/.. with the operation itself (its modifier)  *)
(*   and meta, glob, asg, in, val, red, err, default of the operation        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES vs

Suite == IOEnv.SUITE
Big   == IOEnv.TIER = "thorough"

RECURSIVE Seq_(_)
Seq_(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seq_(s \ {x})

None == <<>>
Some(s) == {<<x>> : x \in s}
Maybe(s) == {None} \cup Some(s)

------------------------------------------------------------------------------
Glob(t, r, m) == [t |-> t, req |-> r, multi |-> m]
Asg(t, p, r, m) == [t |-> t, pub |-> p, req |-> r, multi |-> m]
Head_(m, o) == [mod |-> m, opt |-> o]
Globs == {Glob(t, r, m) : t \in {"any", "t1", "t2"}, r \in BOOLEAN, m \in BOOLEAN}
Asgs == {Asg(t, p, r, m) : t \in {"any", "rights", "amount", "anydata", "anyattach", "t1", "t2"}, p \in BOOLEAN, r \in BOOLEAN, m \in BOOLEAN}
Mods == {"abstract", "override", "final"}
Occs == {"0-1", "1-1", "0-n", "1-n", "0-3", "1-3", "2-2", "2-3"}
Min_(o) == CASE o \in {"0-1", "0-n", "0-3"} -> 0 [] o \in {"1-1", "1-n", "1-3"} -> 1 [] OTHER -> 2

IsOp(k) == k[1] \in {"gen", "trans", "ext"}
IsHead(k) == IsOp(k) /\ Len(k) = 2
IsOcc(k) == Len(k) = 4 /\ k[3] \in {"glob", "asg", "in"}
IsDefault(k) == k = <<"default">> \/ (Len(k) = 3 /\ k[3] = "default")

\* a state of the kind given suits where the other is expected
Suits(t, exp) == exp = "any" \/ t = exp \/ (exp = "anydata" /\ t \in {"t1", "t2"})

(* Redefinitions which are not allowed.  A redefinition can't be final or    *)
(* required less, or be of another type.                                     *)
Overrides(old, new) == old.mod \in {"abstract", "override"} /\ new.mod \in {"override", "final"}
Conflict(k, old, new) ==
  CASE k[1] = "meta" -> old # new
    [] k[1] = "global" -> (old.t # "any" /\ new.t # old.t) \/ (old.req /\ ~new.req)
    [] k[1] = "assign" -> ~Suits(new.t, old.t) \/ (old.req /\ ~new.req) \/ (old.pub /\ ~new.pub)
    [] k[1] = "val" -> old.req /\ ~new.req
    [] IsHead(k) -> ~Overrides(old, new)
    [] IsOcc(k) -> Min_(old) > Min_(new)
    [] IsDefault(k) -> old # new
    [] OTHER -> FALSE

\* operations which may be skipped, and are unknown to the interface extended, are not added
Skipped(a, e, k) ==
  /\ IsOp(k)
  /\ LET h == <<k[1], k[2]>> IN h \notin DOMAIN a /\ e[h].opt
Added(a, e) == {k \in DOMAIN e : ~Skipped(a, e, k)}
Problems(a, e) == {k \in DOMAIN a \cap Added(a, e) : Conflict(k, a[k], e[k])}
Extended(a, e) ==
  [k \in DOMAIN a \cup Added(a, e) |->
    IF k \notin DOMAIN e THEN a[k] ELSE IF k \notin DOMAIN a THEN e[k]
    ELSE IF IsHead(k) THEN Head_(e[k].mod, a[k].opt /\ e[k].opt)
    ELSE e[k]]

\* what has been required of an item is still required
AtLeast(k, old, new) ==
  CASE k[1] \in {"meta"} \/ IsDefault(k) -> new = old
    [] k[1] = "global" -> (old.t = "any" \/ new.t = old.t) /\ (old.req => new.req)
    [] k[1] = "assign" -> Suits(new.t, old.t) /\ (old.req => new.req) /\ (old.pub => new.pub)
    [] k[1] = "val" -> old.req => new.req
    [] IsHead(k) -> (old.mod = "final" => new.mod = "final") /\ (new.opt => old.opt)
    [] IsOcc(k) -> Min_(new) >= Min_(old)
    [] OTHER -> TRUE

------------------------------------------------------------------------------
(* Consistency                                                               *)
Uses(k) ==
  CASE k[3] = "glob" -> <<"global", k[4]>> [] k[3] \in {"asg", "in"} -> <<"assign", k[4]>>
    [] k[3] \in {"val", "red"} -> <<"val", k[4]>> [] OTHER -> <<k[3], k[4]>>
Unknown(a) == {<<"unknown", k>> : k \in {x \in DOMAIN a : Len(x) = 4 /\ Uses(x) \notin DOMAIN a}}
                \cup {<<"unknown", k>> : k \in {x \in DOMAIN a : Len(x) = 3 /\ <<x[1], x[2], "asg", a[x]>> \notin DOMAIN a}}
                \cup {<<"unknown", k>> : k \in {x \in DOMAIN a : x = <<"default">> /\ <<"trans", a[x]>> \notin DOMAIN a /\ <<"ext", a[x]>> \notin DOMAIN a}}
Multiple(a) == {<<"multiple", k>> : k \in {x \in DOMAIN a : IsOcc(x) /\ Uses(x) \in DOMAIN a /\ Min_(a[x]) > 1 /\ ~a[Uses(x)].multi}}
Repeated(a) == {<<"repeated", k>> : k \in {x \in DOMAIN a : Len(x) = 2 /\ x[1] = "trans" /\ <<"ext", x[2]>> \in DOMAIN a}}
InGenesis(k) == <<"gen", "", CASE k[1] = "global" -> "glob" [] k[1] = "assign" -> "asg" [] OTHER -> "val", k[2]>>
Absent(a) == {<<"absent", k>> : k \in {x \in DOMAIN a : x[1] \in {"global", "assign", "val"} /\ a[x].req /\ InGenesis(x) \notin DOMAIN a}}
Inconsistent(a) == Unknown(a) \cup Multiple(a) \cup Repeated(a) \cup Absent(a)

------------------------------------------------------------------------------
(* Interfaces to extend: all of them have an item y, extensions have z;      *)
(* variations of others.                                                     *)
Ops == {<<"gen", "">>, <<"trans", "x">>, <<"ext", "x">>}
Common(n) ==
  (<<"meta", n>> :> "t1") @@ (<<"global", n>> :> Glob("t1", TRUE, FALSE)) @@ (<<"assign", n>> :> Asg("t1", TRUE, FALSE, TRUE))
    @@ (<<"val", n>> :> [req |-> FALSE]) @@ (<<"err", n>> :> "m1")
    @@ (<<"gen", "">> :> Head_("override", FALSE)) @@ (<<"gen", "", "glob", n>> :> "1-1") @@ (<<"gen", "", "meta", n>> :> "")
    @@ (<<"trans", n>> :> Head_("final", FALSE)) @@ (<<"trans", n, "in", n>> :> "1-n") @@ (<<"trans", n, "err", n>> :> "")
    @@ (<<"ext", n>> :> Head_("final", FALSE)) @@ (<<"ext", n, "red", n>> :> "") @@ (<<"ext", n, "default">> :> n) @@ (<<"ext", n, "asg", n>> :> "1-1")
Both ==
  (<<"trans", "x">> :> Head_("override", FALSE)) @@ (<<"ext", "x">> :> Head_("override", FALSE))

Pairs(k, s, t) == {<<k, x, y>> : x \in s, y \in t}
Fields(o) == {"meta", "val", "err"} \cup (IF o[1] = "ext" THEN {"red"} ELSE {})
OccFields(o) == {"glob", "asg"} \cup (IF o[1] = "trans" THEN {"in"} ELSE {})
In(o, f) == <<o[1], o[2], f, "x">>
Some_ == UNION {
  Pairs(<<"meta", "x">>, Maybe({"t1", "t2"}), Maybe({"t1", "t2"})),
  Pairs(<<"global", "x">>, Maybe(Globs), Maybe(Globs)),
  Pairs(<<"assign", "x">>, Maybe(Asgs), Maybe(Asgs)),
  Pairs(<<"val", "x">>, Maybe({[req |-> r] : r \in BOOLEAN}), Maybe({[req |-> r] : r \in BOOLEAN})),
  Pairs(<<"err", "x">>, Maybe({"m1", "m2"}), Maybe({"m1", "m2"})),
  Pairs(<<"default">>, Maybe({"x", "y"}), Maybe({"x", "y"})),
  Pairs(<<"gen", "">>, {<<Head_(m, FALSE)>> : m \in Mods}, {<<Head_(m, FALSE)>> : m \in Mods}),
  UNION {Pairs(o, Maybe({Head_(m, p) : m \in Mods, p \in BOOLEAN}), Maybe({Head_(m, p) : m \in Mods, p \in BOOLEAN})) : o \in Ops \ {<<"gen", "">>}},
  UNION {UNION {Pairs(In(o, f), Maybe({""}), Maybe({""})) : f \in Fields(o)} : o \in Ops},
  UNION {UNION {Pairs(In(o, f), Maybe(Occs), Maybe(Occs)) : f \in OccFields(o)} : o \in Ops},
  UNION {Pairs(<<o[1], o[2], "default">>, Maybe({"x", "y"}), Maybe({"x", "y"})) : o \in Ops \ {<<"gen", "">>}}}
\* those which are combined
Few ==
  LET G(t, r) == <<Glob(t, r, TRUE)>>
      A(t, r) == <<Asg(t, r, r, TRUE)>>
      H(m) == <<Head_(m, FALSE)>> IN
  Pairs(<<"meta", "x">>, Maybe({"t1"}), Maybe({"t1", "t2"}))
    \cup Pairs(<<"global", "x">>, {None, G("t1", TRUE), G("any", FALSE)}, {None, G("t1", TRUE), G("t2", FALSE)})
    \cup Pairs(<<"assign", "x">>, {None, A("t1", TRUE), A("anydata", FALSE)}, {None, A("t1", TRUE), A("amount", TRUE), A("t1", FALSE)})
    \cup Pairs(<<"val", "x">>, Maybe({[req |-> TRUE]}), Maybe({[req |-> r] : r \in BOOLEAN}))
    \cup Pairs(<<"err", "x">>, Maybe({"m1"}), Maybe({"m2"}))
    \cup Pairs(<<"default">>, Maybe({"x"}), Maybe({"x", "y"}))
    \cup Pairs(<<"gen", "">>, {H("override"), H("abstract")}, {H("final"), H("abstract")})
    \cup UNION {Pairs(o, {None, H("override"), H("final")}, {None, H("override"), <<Head_("final", TRUE)>>}) : o \in Ops \ {<<"gen", "">>}}
    \cup UNION {UNION {Pairs(In(o, f), {None}, Some({""})) : f \in Fields(o)} : o \in Ops}
    \cup UNION {UNION {Pairs(In(o, f), {None, <<"1-1">>}, {<<"1-3">>, <<"0-3">>}) : f \in OccFields(o)} : o \in Ops}
    \cup UNION {Pairs(<<o[1], o[2], "default">>, Maybe({"x"}), Maybe({"y"})) : o \in Ops \ {<<"gen", "">>}}

\* operations are absent with all they contain
Side(i, common) ==
  LET set == [k \in {v[1] : v \in {u \in vs : u[i] # None}} |-> (CHOOSE v \in vs : v[1] = k)[i][1]]
      gone == {v[1] : v \in {u \in vs : u[i] = None}}
      all == set @@ common @@ Both IN
  [k \in {x \in DOMAIN all : x \notin gone /\ ~(IsOp(x) /\ <<x[1], x[2]>> \in gone)} |-> all[k]]
Base == Side(2, Common("y"))
Ext == Side(3, Common("z"))

(* Interfaces to check                                                       *)
Good ==
  Common("y") @@ (<<"global", "x">> :> Glob("t1", FALSE, TRUE)) @@ (<<"assign", "x">> :> Asg("amount", FALSE, FALSE, TRUE)) @@ (<<"val", "x">> :> [req |-> FALSE])
    @@ (<<"meta", "x">> :> "t1") @@ (<<"err", "x">> :> "m1") @@ (<<"trans", "x">> :> Head_("final", FALSE)) @@ (<<"ext", "w">> :> Head_("final", TRUE))
One(k, s) == {<<k, x>> : x \in s}
COps == {<<"gen", "">>, <<"trans", "x">>, <<"ext", "w">>}
Checked == UNION {
  One(<<"meta", "x">>, {None}), One(<<"err", "x">>, {None}), One(<<"val", "x">>, {None, <<[req |-> TRUE]>>}),
  One(<<"global", "x">>, {None} \cup {<<Glob("any", r, m)>> : r \in BOOLEAN, m \in BOOLEAN}),
  One(<<"assign", "x">>, {None} \cup {<<Asg("amount", FALSE, r, m)>> : r \in BOOLEAN, m \in BOOLEAN}),
  One(<<"default">>, {<<"x">>, <<"w">>, <<"v">>}), One(<<"trans", "x">>, {None}), One(<<"ext", "x">>, {<<Head_("final", FALSE)>>}), One(<<"trans", "w">>, {<<Head_("final", TRUE)>>}),
  UNION {UNION {One(In(o, f), {<<"">>}) : f \in Fields(o)} : o \in COps},
  UNION {UNION {One(In(o, f), {<<"0-1">>, <<"1-n">>, <<"2-2">>, <<"2-3">>}) : f \in OccFields(o)} : o \in COps},
  UNION {One(<<o[1], o[2], "default">>, {<<"x">>, <<"v">>}) : o \in COps \ {<<"gen", "">>}}}
CheckedIface ==
  LET set == [k \in {v[1] : v \in {u \in vs : u[2] # None}} |-> (CHOOSE v \in vs : v[1] = k)[2][1]]
      gone == {v[1] : v \in {u \in vs : u[2] = None}}
      all == set @@ Good IN
  [k \in {x \in DOMAIN all : x \notin gone /\ ~(IsOp(x) /\ <<x[1], x[2]>> \in gone)} |-> all[k]]

Headed(v) == IsHead(v[1]) /\ v[2] # None /\ v[3] # None
Init == vs = {}
Add(s) == \E v \in s : (\A u \in vs : u[1] # v[1]) /\ vs' = vs \cup {v}
Next ==
  IF Suite = "I06" THEN Cardinality(vs) < (IF Big THEN 4 ELSE 3) /\ Add(Checked)
  ELSE \/ vs = {} /\ Add(Some_)
       \/ Cardinality(vs) < (IF Big THEN 3 ELSE 2) /\ vs \subseteq Few /\ Add(Few)

------------------------------------------------------------------------------
Facts(a) == [i \in 1..Cardinality(DOMAIN a) |-> LET k == Seq_(DOMAIN a)[i] IN [k |-> k, v |-> a[k]]]
Keys(s) == Seq_(s)
\* modifiers are looked at on their own
Plain(a) == [k \in DOMAIN a |-> IF IsHead(k) THEN Head_("any", FALSE) ELSE a[k]]
OutExtend ==
  [f |-> "iface.extend", a |-> Facts(Base), e |-> Facts(Ext),
   out |-> <<IF Problems(Base, Ext) # {} THEN [problems |-> Keys(Problems(Base, Ext))] ELSE [facts |-> Facts(Plain(Extended(Base, Ext)))]>>]
OutHead(v) ==
  LET r == Extended(Base, Ext)[v[1]]
      ms == {r.mod} \cup (IF r.mod = "override" THEN {v[2][1].mod} ELSE {}) IN
  [f |-> "iface.head", op |-> v[1], a |-> v[2][1], e |-> v[3][1],
   out |-> IF Problems(Base, Ext) # {} THEN <<"refused">> ELSE [i \in 1..Cardinality(ms) |-> Head_(Seq_(ms)[i], r.opt)]]
OutCheck == [f |-> "iface.check", a |-> Facts(CheckedIface), out |-> <<Keys(Inconsistent(CheckedIface))>>]
Emit ==
  IF Suite = "I06" THEN PrintT(ToJson(OutCheck))
  ELSE /\ PrintT(ToJson(OutExtend))
       /\ \A v \in vs : Cardinality(vs) = 1 /\ Headed(v) => PrintT(ToJson(OutHead(v)))

Laws ==
  IF Suite = "I06" THEN TRUE
  ELSE Problems(Base, Ext) = {} =>
         LET r == Extended(Base, Ext) IN
         /\ \A k \in DOMAIN Base : k \in DOMAIN r /\ AtLeast(k, Base[k], r[k])
         /\ \A k \in DOMAIN Ext : k \in DOMAIN r \/ (IsOp(k) /\ Ext[<<k[1], k[2]>>].opt)
         /\ \A k \in DOMAIN r : k \in DOMAIN Base \/ k \in DOMAIN Ext
=============================================================================
