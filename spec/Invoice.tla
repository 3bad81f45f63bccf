------------------------------- MODULE Invoice -------------------------------
(* Invoices and their texts.  A text is put together from lexemes, one for   *)
(* each part of the grammar; a lexeme means a value, or nothing (bad), or is *)
(* debatable (soft): such a text may be refused or have the meaning given,   *)
(* but no other meaning.  In texts `{...}` stands for an identifier, seal,   *)
(* address, or a special character, which the harness substitutes.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Suite == IOEnv.SUITE
Big   == IOEnv.TIER # "quick"

VARIABLE case

None == "none"
Bad  == "bad"
\* lexemes: text, meaning, whether refusing is allowed
L(t, m) == [t |-> t, m |-> m, soft |-> FALSE]
S(t, m) == [t |-> t, m |-> m, soft |-> TRUE]
B(t)    == [t |-> t, m |-> Bad, soft |-> FALSE]

RECURSIVE Join(_, _)
Join(ts, sep) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Join(Tail(ts), sep)
RECURSIVE Cat(_)
Cat(ts) == IF ts = <<>> THEN "" ELSE ts[1] \o Cat(Tail(ts))

------------------------------------------------------------------------------
\* Parts of the path
Scheme == <<L("rgb:", "rgb"), B("bitcoin:"), B("rgbx:"), B("rgb"), B(""), B("rgb:/"), B("rgb://"), B("rgb://host/"),
            B(" rgb:"), B(":"), S("RGB:", "rgb"), S("rgb:rgb:", "rgb"), B("rgb:sch:"), B("rgb:rgb:sch:")>>
Contract == <<L("{c:0}", "0"), L("{c:1}", "1"), L("~", None), L("{c:0:flat}", "0"), B(""), B("~~"), B("{c:0:cut}"),
              B("{c:0:long}"), B("{c:0:char}"), B("{c:0:check}"), S("{c:0:checked}", "0"), B("{c:0:mnemo}"), B("{s:0}"),
              B("{c:0}%20"), B("{c:0} "), B("{c:0}+"), B("{c:0}:")>>
Iface == <<L("RGB20", "RGB20"), L("RGB21Unique", "RGB21Unique"), L("~", None), B(""), B("1bad"), B("a-b"), B("RGB20%20"),
           B("RGB 20"), B("~~"), B("{long}"), B("RGB20?"), B("RGB20#")>>
\* operation and assignment
Mid == <<L(<<>>, <<None, None>>), L(<<"transfer">>, <<"transfer", None>>), L(<<"issue", "assetOwner">>, <<"issue", "assetOwner">>),
         L(<<"~", "assetOwner">>, <<None, "assetOwner">>), S(<<"~">>, <<None, None>>), S(<<"issue", "~">>, <<"issue", None>>),
         S(<<"~", "~">>, <<None, None>>),
         [t |-> <<"1bad">>, m |-> <<Bad, Bad>>, soft |-> FALSE], [t |-> <<"issue", "a-b">>, m |-> <<Bad, Bad>>, soft |-> FALSE],
         [t |-> <<"a", "b", "c">>, m |-> <<Bad, Bad>>, soft |-> FALSE], [t |-> <<"">>, m |-> <<Bad, Bad>>, soft |-> FALSE],
         [t |-> <<"issue", "">>, m |-> <<Bad, Bad>>, soft |-> FALSE],
         [t |-> <<"BF+bc:{s:1}">>, m |-> <<Bad, Bad>>, soft |-> FALSE], [t |-> <<"{long}">>, m |-> <<Bad, Bad>>, soft |-> FALSE]>>
State == <<L("BF+", "amount 100"), L("", "void"), L("1@1+", "allocation 1@1"), L("18446744073709551615@4294967295+",
             "allocation 18446744073709551615@4294967295"), L("{a:0:plain}+", "attachment 0"), S("+", "void"),
           B("BF+BF+"), B("B_+"), B("1@+"), B("@1+"), B("1@1@1+"), B("1@4294967296+"), B("18446744073709551616@1+"),
           B("{a:0}+"), B("{s:0}+"), B("rgb:{c:0}+"), B("BF%2B"), B("BF "), B("-1+"), B("BF/"), B("1@+1@1+")>>
Net == <<L("bc:", "bc"), L("tb:", "tb"), L("sb:", "sb"), L("bcrt:", "bcrt"), L("lq:", "lq"), L("tl:", "tl"),
         B("xx:"), B(":"), B("b:"), B("bcr:"), B(""), B("bc"), B("bc::"), B("bc:bc:"), S("BC:", "bc"), S("Lq:", "lq")>>
Methods == {"tapret", "opret"}
Addrs == {"p2pkh", "p2sh", "p2wpkh", "p2wsh", "p2tr"}
Vout(m, a) == L("{v:" \o m \o ":" \o a \o ":0}", "vout " \o m \o " " \o a \o " 0")
Body == <<L("{s:0}", "seal 0"), L("{s:1}", "seal 1"), L("{s:0:flat}", "seal 0"),
          Vout("tapret", "p2pkh"), Vout("tapret", "p2sh"), Vout("tapret", "p2wpkh"), Vout("tapret", "p2wsh"), Vout("tapret", "p2tr"),
          Vout("opret", "p2pkh"), Vout("opret", "p2sh"), Vout("opret", "p2wpkh"), Vout("opret", "p2wsh"), Vout("opret", "p2tr"),
          L("{v:opret:p2tr:1:flat}", "vout opret p2tr 1"), S("{s:0:bare}", "seal 0"), S("{v:opret:p2wsh:0:bare}", "vout opret p2wsh 0"),
          S("{s:0:unchecked}", "seal 0"), S("{v:tapret:p2sh:0:unchecked}", "vout tapret p2sh 0"),
          S("{v:tapret:p2wpkh:0:padded}", "vout tapret p2wpkh 0"),
          B(""), B("{s:0:check}"), B("{s:0:cut}"), B("{s:0:long}"), B("{s:0:char}"), B("utxob:"), B("wvout:"),
          B("{v:tapret:p2wpkh:0:check}"), B("{v:tapret:p2tr:0:cut}"), B("{v:2:p2tr:0}"), B("{v:255:p2wpkh:0}"), B("{v:tapret:0:0}"),
          B("{v:opret:6:0}"), B("{v:opret:255:0}"), B("{v:tapret:p2tr:invalid}"), B("{v:tapret:p2tr:0:aseal}"), B("{s:0:avout}"),
          B("rgb:{c:0}"), B("bc1qar0srrr7xfkvy5l643lydnw9re59gtzzwf5mdq"), B("{s:0}+"), B("{s:0}:"), B("{s:0},{s:1}"), B("{s:0}%20")>>
Tail_ == <<L("", ""), S("#", ""), S("#fragment", ""), B("/"), B("/{s:0}"), B("/BF+bc:{s:1}"), B(" "), B("/~"), B("{nul}")>>
------------------------------------------------------------------------------
\* Query parameters: [t |-> text, k |-> what it sets, v |-> value]
Q(t, k, v)  == [t |-> t, k |-> k, v |-> v, soft |-> FALSE]
QS(t, k, v) == [t |-> t, k |-> k, v |-> v, soft |-> TRUE]
QB(t)       == [t |-> t, k |-> Bad, v |-> <<>>, soft |-> FALSE]    \* no parameter
QV(t, k)    == [t |-> t, k |-> k, v |-> <<Bad>>, soft |-> FALSE]     \* not a value of the parameter
Params ==
  {Q("expiry=1682086371", "expiry", <<"1682086371">>), Q("expiry=0", "expiry", <<"0">>), Q("expiry=-1", "expiry", <<"-1">>),
   Q("expiry=9223372036854775807", "expiry", <<"9223372036854775807">>),
   Q("expiry=-9223372036854775808", "expiry", <<"-9223372036854775808">>),
   Q("expiry=%31", "expiry", <<"1">>), Q("e%78piry=7", "expiry", <<"7">>), QS("expiry=+5", "expiry", <<"5">>), QS("expiry=007", "expiry", <<"7">>),
   QV("expiry=9223372036854775808", "expiry"), QV("expiry=-9223372036854775809", "expiry"), QV("expiry=six", "expiry"), QV("expiry=", "expiry"), QB("expiry"),
   QV("expiry=1.5", "expiry"), QV("expiry=%201", "expiry"), QV("expiry=1%20", "expiry"), QV("expiry=0x10", "expiry"), QV("expiry=--1", "expiry"), QV("expiry=1,2", "expiry"),
   Q("endpoints=rpc://host.example.com", "endpoints", <<"rpc://host.example.com">>),
   Q("endpoints=rpcs://host.example.com:8080/json", "endpoints", <<"rpcs://host.example.com:8080/json">>),
   Q("endpoints=http://a", "endpoints", <<"http://a">>), Q("endpoints=https://a/b?c", "endpoints", <<"https://a/b?c">>),
   Q("endpoints=ws://a", "endpoints", <<"ws://a">>), Q("endpoints=wss://a", "endpoints", <<"wss://a">>),
   Q("endpoints=storm://_/", "endpoints", <<"storm">>), QS("endpoints=storm://x", "endpoints", <<"storm">>),
   Q("endpoints=https://a,rpc://b,storm://_/,wss://c", "endpoints", <<"https://a", "rpc://b", "storm", "wss://c">>),
   Q("endpoints=rpc://a,rpc://a", "endpoints", <<"rpc://a", "rpc://a">>),
   Q("endpoints=http%3A//a%3Fb%3Dc%26d", "endpoints", <<"http://a?b=c&d">>), Q("endpoints=rpc://%2541", "endpoints", <<"rpc://%41">>),
   QS("endpoints=rpc://a=b", "endpoints", <<"rpc://a=b">>), Q("endpoints=rpc://rpc://a", "endpoints", <<"rpc://rpc://a">>),
   QV("endpoints=", "endpoints"), QB("endpoints"), QV("endpoints=rpc", "endpoints"), QV("endpoints=rpc://", "endpoints"), QV("endpoints=rpc:/a", "endpoints"), QV("endpoints=rpc:a", "endpoints"),
   QV("endpoints=ftp://a", "endpoints"), QV("endpoints=://a", "endpoints"), QV("endpoints=rpc://a,", "endpoints"), QV("endpoints=,rpc://a", "endpoints"), QV("endpoints=rpc://a,,rpc://b", "endpoints"),
   QV("endpoints=rpc://a,bad", "endpoints"), QV("endpoints=RPC://a", "endpoints"), QV("endpoints=rpcss://a", "endpoints"), QV("endpoints=rpc://a,https://", "endpoints"),
   Q("sub=1", "sub", <<"1">>), Q("new=", "new", <<"">>), Q("a%26b=c%3Dd", "a&b", <<"c=d">>), Q("p=50%25", "p", <<"50%">>),
   Q("s=a%20b", "s", <<"a b">>), Q("u=%C3%A9", "u", <<"{eacute}">>), Q("plus=a+b", "plus", <<"a+b">>), Q("q=a?b/c", "q", <<"a?b/c">>),
   Q("h=%23", "h", <<"#">>), Q("Expiry=5", "Expiry", <<"5">>), Q("{eacute:pct}=1", "{eacute}", <<"1">>),
   QS("=v", "", <<"v">>), QS("k=v=w", "k", <<"v=w">>),
   QB("novalue"), QB("x=%ff"), QB("x=%zz"), QB("x=%4"), QB("x={eacute}"), QB("x=a b"), QB("x={quote}"), QB("%ff=1"), QB("x=[")}
NoParam == [t |-> "", k |-> "", v |-> <<>>, soft |-> FALSE]

------------------------------------------------------------------------------
\* Texts: a choice of a lexeme for each part, and parameters
Parts == {"scheme", "contract", "iface", "mid", "state", "net", "body", "tail"}
Lex(p) == CASE p = "scheme" -> Scheme [] p = "contract" -> Contract [] p = "iface" -> Iface [] p = "mid" -> Mid
            [] p = "state" -> State [] p = "net" -> Net [] p = "body" -> Body [] p = "tail" -> Tail_
Default == [p \in Parts |-> 1]
Nos(p) == 1..Len(Lex(p))
Changed(c) == Cardinality({p \in Parts : c[p] # 1})
FewParams == {q \in Params : q.t \in {"expiry=0", "endpoints=rpc://a,rpc://a", "sub=1", "a%26b=c%3Dd", "expiry=six", "endpoints="}}

Lx(c, p) == Lex(p)[c[p]]
\* what follows the beneficiary belongs to the path, or goes after the query
PathTails == {"/", "/{s:0}", "/BF+bc:{s:1}", "/~"}
TextOf(x) ==
  LET tail == Lx(x.c, "tail").t IN
  Lx(x.c, "scheme").t \o Lx(x.c, "contract").t \o "/" \o Lx(x.c, "iface").t \o "/"
    \o (IF Lx(x.c, "mid").t = <<>> THEN "" ELSE Join(Lx(x.c, "mid").t, "/") \o "/")
    \o Lx(x.c, "state").t \o Lx(x.c, "net").t \o Lx(x.c, "body").t
    \o (IF tail \in PathTails THEN tail ELSE "")
    \o (IF x.q = <<>> THEN "" ELSE "?" \o Join([i \in 1..Len(x.q) |-> x.q[i].t], "&"))
    \o (IF tail \in PathTails THEN "" ELSE tail)

\* Separators inside a lexeme can move the boundary of the parts: combinations in which a text assembled of bad
\* parts could happen to be well formed.  "BF/" without a network is a middle segment, and so on.
Shifting(c) ==
  \/ Lx(c, "state").t \in {"BF/"} /\ Changed(c) > 1
  \/ Lx(c, "tail").t \in PathTails /\ Changed(c) > 1
  \/ Lx(c, "iface").t \in {"RGB20?", "RGB20#"} /\ Changed(c) > 1
  \/ Lx(c, "mid").t = <<"BF+bc:{s:1}">> /\ Changed(c) > 1
  \/ Lx(c, "net").t = "" /\ Lx(c, "state").t \in {"BF%2B", "BF "}
  \/ Lx(c, "net").t \in {"bc", ""} /\ c["body"] # 1
  \/ Lx(c, "scheme").t \in {"rgb", "", "rgb:/", "rgb://", "rgb://host/", ":", "rgb:sch:", "rgb:rgb:sch:"} /\ c["contract"] # 1
  \/ Lx(c, "scheme").t = "rgb:rgb:" /\ Lx(c, "contract").t = "~"
  \/ Lx(c, "net").t \in {"bc::", "bc:bc:"} /\ c["body"] # 1
PathBad(c) ==
  \/ \E p \in Parts \ {"mid"} : Lx(c, p).m = Bad
  \/ Lx(c, "mid").m = <<Bad, Bad>>
  \/ Lx(c, "contract").m # None /\ Lx(c, "iface").m = None    \* a contract is named together with an interface
PathSoft(c) == \E p \in Parts : Lx(c, p).soft

Keys(q) == {q[i].k : i \in 1..Len(q)}
\* the last, or the first one of repeated parameters
Reading(q, k, last) ==
  LET is == {i \in 1..Len(q) : q[i].k = k}
      i == CHOOSE i \in is : \A j \in is : IF last THEN j <= i ELSE i <= j
  IN q[i].v
RECURSIVE Unknown(_, _, _)
Unknown(q, n, last) ==
  IF n > Len(q) THEN <<>>
  ELSE LET k == q[n].k
           again == \E j \in 1..(n - 1) : q[j].k = k
       IN (IF k \in {"expiry", "endpoints"} \/ again THEN <<>> ELSE <<<<k, Reading(q, k, last)[1]>>>>) \o Unknown(q, n + 1, last)
Value(x, last) ==
  [contract |-> Lx(x.c, "contract").m, iface |-> Lx(x.c, "iface").m, op |-> Lx(x.c, "mid").m[1], assign |-> Lx(x.c, "mid").m[2],
   state |-> Lx(x.c, "state").m, net |-> Lx(x.c, "net").m, ben |-> Lx(x.c, "body").m,
   expiry |-> IF "expiry" \in Keys(x.q) THEN Reading(x.q, "expiry", last)[1] ELSE None,
   transports |-> IF "endpoints" \in Keys(x.q) THEN Reading(x.q, "endpoints", last) ELSE <<"unspecified">>,
   unknown |-> Unknown(x.q, 1, last)]
Refused == [Value([c |-> Default, q |-> <<>>], TRUE) EXCEPT !.contract = "refused"]

QueryBad(q) == \E i \in 1..Len(q) : q[i].k = Bad
\* of a repeated parameter one value may be ignored
ReadingBad(q, last) == \E k \in Keys(q) : Reading(q, k, last) = <<Bad>>
ReadAs(x, last) == IF ReadingBad(x.q, last) THEN Refused ELSE Value(x, last)
QuerySoft(q) == \E i \in 1..Len(q) : q[i].soft \/ q[i] = NoParam \/ \E j \in 1..(i - 1) : q[i].k = q[j].k
Meaning(x) ==
  IF PathBad(x.c) \/ QueryBad(x.q) THEN {Refused}
  ELSE IF x.q = <<NoParam>> THEN {Refused, Value([x EXCEPT !.q = <<>>], TRUE)}
  ELSE {ReadAs(x, TRUE)} \cup (IF QuerySoft(x.q) THEN {ReadAs(x, FALSE)} ELSE {})
         \cup (IF PathSoft(x.c) \/ QuerySoft(x.q) THEN {Refused} ELSE {})

RECURSIVE Seq_(_)
Seq_(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seq_(s \ {x})

------------------------------------------------------------------------------
\* Invoices made with the builder, their texts and what these denote
Contracts == {None, "0", "1"}
Ifaces == {None, "RGB20", "RGB21Unique"}
Mids == {<<None, None>>, <<"transfer", None>>, <<None, "assetOwner">>, <<"issue", "assetOwner">>}
States == {"void", "amount 100", "amount 0", "amount 18446744073709551615", "allocation 1@1", "allocation 0@0",
           "allocation 18446744073709551615@4294967295", "attachment 0", "attachment 1"}
Nets == {"bc", "tb", "sb", "bcrt", "lq", "tl"}
Bens == {"seal 0", "seal 1"} \cup {"vout " \o m \o " " \o a \o " 0" : m \in Methods, a \in Addrs} \cup {"vout opret p2wpkh 1"}
Expiries == {None, "0", "-1", "1682086371", "9223372036854775807", "-9223372036854775808"}
Hosts == {"host.example.com", "127.0.0.1:80/p?q=1&r=2", "h%41", "[::1]:8080", "a#b", "a b", "{eacute}.org", "a=b+c", "x/y;z", "{misc}"}
Schemes == {"rpc://", "rpcs://", "http://", "https://", "ws://", "wss://"}
Transports ==
  {<<"unspecified">>, <<"storm">>, <<"unspecified", "rpc://a">>, <<"rpc://a", "unspecified">>, <<"unspecified", "unspecified">>,
   <<"rpc://a", "https://b", "storm", "ws://c">>, <<"rpc://a", "rpc://a">>}
    \cup {<<s \o "host.example.com">> : s \in Schemes} \cup {<<"rpc://" \o h>> : h \in Hosts}
    \cup {<<"https://" \o h, "ws://" \o i>> : h \in Hosts, i \in Hosts}
Odd == {"a&b", "c=d", "50%", "%41", "a b", "{quote}", "x#y", "{eacute}", "a+b", "{misc}", "?", "/", ",", "[]", "<>", "~", ""}
Unknowns ==
  {<<>>} \cup {<<<<"k", v>>>> : v \in Odd} \cup {<<<<k, "v">>>> : k \in Odd}
    \cup {<<<<"k1", v>>, <<"k2", u>>>> : v \in Odd, u \in Odd}
    \cup {<<<<"z", "1">>, <<"y", "2">>, <<"x", "3">>>>}
Dims == {"contract", "iface", "mid", "state", "net", "ben", "expiry", "transports", "unknown"}
Range(d) == CASE d = "contract" -> Contracts [] d = "iface" -> Ifaces [] d = "mid" -> Mids [] d = "state" -> States [] d = "net" -> Nets
              [] d = "ben" -> Bens [] d = "expiry" -> Expiries [] d = "transports" -> Transports [] d = "unknown" -> Unknowns
Plain == [d \in Dims |-> CASE d = "contract" -> "0" [] d = "iface" -> "RGB20" [] d = "mid" -> <<None, None>> [] d = "state" -> "amount 100"
                           [] d = "net" -> "bc" [] d = "ben" -> "seal 0" [] d = "expiry" -> None [] d = "transports" -> <<"unspecified">>
                           [] d = "unknown" -> <<>>]
Wide == {"transports", "unknown"}
Differs(i) == {d \in Dims : i[d] # Plain[d]}
Nameable(i) == ~ (i["contract"] # None /\ i["iface"] = None)

StateText(s) ==
  CASE s = "void" -> "" [] s = "amount 100" -> "BF+" [] s = "allocation 1@1" -> "1@1+" [] s = "allocation 0@0" -> "0@0+"
    [] OTHER -> "?"
BenText(b) == CASE b = "seal 0" -> "{s:0}" [] b = "seal 1" -> "{s:1}" [] b = "vout tapret p2tr 0" -> "{v:tapret:p2tr:0}"
                [] b = "vout opret p2wpkh 1" -> "{v:opret:p2wpkh:1}" [] OTHER -> "?"
\* the exact text, where nothing is debatable about it
Exact(i) ==
  i["mid"] = <<None, None>> /\ StateText(i["state"]) # "?" /\ BenText(i["ben"]) # "?" /\ i["transports"] = <<"unspecified">>
    /\ i["unknown"] = <<>>
PrintText(i) ==
  "rgb:" \o (IF i["contract"] = None THEN "~" ELSE "{c:" \o i["contract"] \o "}") \o "/" \o (IF i["iface"] = None THEN "~" ELSE i["iface"])
    \o "/" \o StateText(i["state"]) \o i["net"] \o ":" \o BenText(i["ben"])
    \o (IF i["expiry"] = None THEN "" ELSE "?expiry=" \o i["expiry"])

\* what is asked of the builder and what has to be obtained
Specified(t) == SelectSeq(t, LAMBDA x : x # "unspecified")
Built(i) ==
  [contract |-> i["contract"], iface |-> i["iface"], op |-> i["mid"][1], assign |-> i["mid"][2], state |-> i["state"], net |-> i["net"],
   ben |-> i["ben"], expiry |-> i["expiry"], unknown |-> i["unknown"],
   transports |-> IF Specified(i["transports"]) = <<>> THEN <<"unspecified">> ELSE Specified(i["transports"])]

------------------------------------------------------------------------------
ReadOut(x) == [f |-> "invoice.read", s |-> TextOf(x), out |-> Seq_(Meaning(x))]
PrintOut(i) ==
  [f |-> "invoice.print", i |-> [Built(i) EXCEPT !.transports = i["transports"]], exact |-> Exact(i),
   out |-> <<[back |-> Built(i), flat |-> Built(i), again |-> TRUE, text |-> IF Exact(i) THEN PrintText(i) ELSE ""]>>]

Init ==
  \/ Suite = "V02" /\ case = [k |-> "read", x |-> [c |-> Default, q |-> <<>>]]
  \/ Suite = "V01" /\ case = [k |-> "print", x |-> Plain]

\* Another part of the path is replaced
ChangePart ==
  /\ case.k = "read" /\ case.x.q = <<>>
  /\ Changed(case.x.c) < (IF Big THEN 3 ELSE 2)
  /\ \E p \in Parts : \E i \in Nos(p) : case.x.c[p] = 1 /\ case' = [case EXCEPT !.x.c[p] = i]
\* Another parameter is added
AddParam ==
  /\ case.k = "read"
  /\ LET n == Len(case.x.q) IN
     /\ \/ n = 0 /\ Changed(case.x.c) < (IF Big THEN 3 ELSE 2)
        \/ n = 1 /\ Changed(case.x.c) = 0
        \/ n = 2 /\ Changed(case.x.c) = 0 /\ case.x.q[1] \in FewParams /\ case.x.q[2] \in FewParams
     /\ \E q \in (IF n = 2 THEN FewParams ELSE Params \cup {NoParam}) :
          (q = NoParam => n = 0 /\ Changed(case.x.c) = 0) /\ case.x.q # <<NoParam>> /\ case' = [case EXCEPT !.x.q = Append(@, q)]
\* Another property of the invoice is set
Set ==
  /\ case.k = "print"
  /\ Cardinality(Differs(case.x)) < (IF Big THEN 4 ELSE 3)
  /\ Differs(case.x) \cap Wide # {} => Cardinality(Differs(case.x)) < (IF Big THEN 3 ELSE 2)
  /\ \E d \in Dims \ Differs(case.x) : \E v \in Range(d) :
       /\ d \in Wide /\ Cardinality(Differs(case.x)) > 0 =>
            /\ Cardinality(Differs(case.x)) < (IF Big THEN 2 ELSE 1) \/ Len(v) < 2
            /\ Differs(case.x) \cap Wide # {} => Len(v) < 2
       /\ case' = [case EXCEPT !.x[d] = v]
Next == ChangePart \/ AddParam \/ Set
Skipped == IF case.k = "read" THEN Shifting(case.x.c) ELSE ~ Nameable(case.x)
Emit == Skipped \/ PrintT(ToJson(IF case.k = "read" THEN ReadOut(case.x) ELSE PrintOut(case.x)))
\* Laws of the specification: a text has one meaning, or may also be refused, or repeats a parameter
Laws ==
  case.k = "read" /\ ~ Skipped =>
    LET m == Meaning(case.x) IN
    /\ m # {}
    /\ Cardinality(m) > 1 => PathSoft(case.x.c) \/ QuerySoft(case.x.q)
    /\ \A y \in m : y = Refused \/ (y.contract = None \/ y.iface # None)
=============================================================================
