-------------------------------- MODULE Descr --------------------------------
(* Descriptions of assets and contracts.                                     *)
(*   V06  just well-formed texts are taken, and they are read back           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES c

Big == IOEnv.TIER = "thorough"

------------------------------------------------------------------------------
(* A text: class of its first character, of the others, whether just the     *)
(* last one is odd (others are lower case letters), and the number of        *)
(* characters.                                                               *)
Classes == {"upper", "lower", "digit", "dash", "plus", "space", "tilde", "slash", "control", "delete", "accent"}
T(first, rest, only, len) == [first |-> first, rest |-> rest, only |-> only, len |-> len]
Good == T("lower", "lower", FALSE, 3)
Empty == T("lower", "lower", FALSE, 0)
Bytes(t) ==
  LET odd == IF t.len < 2 THEN 0 ELSE IF t.only THEN 1 ELSE t.len - 1 IN
  t.len + (IF t.len > 0 /\ t.first = "accent" THEN 1 ELSE 0) + (IF t.rest = "accent" THEN odd ELSE 0)

Letter == {"upper", "lower"}
Printable == Classes \ {"control", "delete", "accent"}
Mime == {"lower", "digit", "dash", "plus"}
Over(t, first, rest, max) == t.len >= 1 /\ Bytes(t) <= max /\ t.first \in first /\ (t.len > 1 => t.rest \in rest)
\* whether a text is well-formed for the given field
Well(field, t) ==
  CASE field = "ticker"  -> Over(t, Letter, Letter \cup {"digit"}, 8)
    [] field = "article" -> Over(t, Letter, Letter \cup {"digit"}, 32)
    [] field = "name"    -> Over(t, Printable, Printable, 40)
    [] field = "details" -> Over(t, Classes, Classes, 255)
    [] field = "terms"   -> Bytes(t) <= 65535
    [] field \in {"type", "subtype", "charset"} -> Over(t, {"lower"}, Mime, 64)

Lens(field) ==
  CASE field = "ticker" -> {1, 2, 7, 8, 9} [] field = "article" -> {1, 2, 31, 32, 33} [] field = "name" -> {1, 2, 39, 40, 41}
    [] field = "details" -> {1, 2, 127, 128, 129, 254, 255, 256} [] field = "terms" -> {1, 2, 255, 256, 32768, 65534, 65535, 65536}
    [] OTHER -> {1, 2, 63, 64, 65}
Texts(field) ==
  {Empty} \cup {T(f, r, o, n) : f \in Classes, r \in Classes, o \in BOOLEAN, n \in IF Big \/ field # "terms" THEN Lens(field) ELSE {1, 2, 256}}
    \cup {T("lower", r, o, n) : r \in {"lower", "accent"}, o \in BOOLEAN, n \in Lens(field)}
SomeTexts(field) ==
  {Empty, Good} \cup {T(f, "lower", FALSE, 3) : f \in {"upper", "digit", "accent"}} \cup {T("upper", r, TRUE, n) : r \in {"digit", "space"}, n \in Lens(field)}

------------------------------------------------------------------------------
Fields(kind) ==
  CASE kind = "asset" -> <<"ticker", "name", "details">> [] kind = "contract" -> <<"article", "name", "details">>
    [] kind = "media" -> <<"type", "subtype", "charset">> [] kind = "terms" -> <<"terms">>
Optional(field) == field \in {"details", "subtype", "charset"}
Kinds == {"asset", "contract", "media", "terms"}
Make(kind, q, p) == [kind |-> kind, q |-> q, p |-> p]
\* the library of restricted strings may take these for printable characters
Loose == {"control", "delete"}
Strict(x) == \A i \in DOMAIN x.q : x.q[i] # <<>> /\ Fields(x.kind)[i] = "name" =>
               x.q[i][1].first \notin Loose /\ (x.q[i][1].len > 1 => x.q[i][1].rest \notin Loose)
Printed(x) == [x EXCEPT !.q = [i \in DOMAIN x.q |->
                 IF x.q[i] # <<>> /\ Fields(x.kind)[i] = "name"
                 THEN <<[x.q[i][1] EXCEPT !.first = IF @ \in Loose THEN "tilde" ELSE @, !.rest = IF @ \in Loose THEN "tilde" ELSE @]>>
                 ELSE x.q[i]]]
Wellformed(x) == \A i \in DOMAIN x.q : x.q[i] = <<>> \/ Well(Fields(x.kind)[i], x.q[i][1])

\* texts of fields are one-element sequences, absent ones are empty ones
Plain(kind) == [i \in DOMAIN Fields(kind) |-> <<Good>>]
Opt(field) == IF Optional(field) THEN {<<>>} ELSE {}
Descriptions ==
  UNION {UNION {{Make(k, [Plain(k) EXCEPT ![i] = t], 8) : t \in {<<x>> : x \in Texts(Fields(k)[i])} \cup Opt(Fields(k)[i])}
                  : i \in DOMAIN Fields(k)} : k \in Kinds}
    \cup UNION {UNION {{Make(k, [Plain(k) EXCEPT ![ij[1]] = t, ![ij[2]] = u], 0)
                          : t \in {<<x>> : x \in SomeTexts(Fields(k)[ij[1]])} \cup Opt(Fields(k)[ij[1]]),
                            u \in {<<x>> : x \in SomeTexts(Fields(k)[ij[2]])} \cup Opt(Fields(k)[ij[2]])}
                          : ij \in {<<1, 2>>, <<1, 3>>, <<2, 3>>}} : k \in {"asset", "contract", "media"}}
    \cup {Make(k, Plain(k), p) : k \in {"asset", "contract"}, p \in 0..18}

\* tickers
Signs == {"A", "a", "B", "b", "1"}
Words ==
  {<<x>> : x \in Signs \ {"1"}} \cup {<<x, y>> : x \in Signs \ {"1"}, y \in Signs}
    \cup {<<x, y, z>> : x \in {"A", "a", "b"}, y \in Signs, z \in IF Big THEN Signs ELSE {"A", "b", "1"}}
Rank(s) == CASE s \in {"A", "a"} -> 2 [] s \in {"B", "b"} -> 3 [] OTHER -> 1
RECURSIVE Order(_, _)
Order(v, w) ==
  IF v = <<>> THEN (IF w = <<>> THEN "equal" ELSE "less")
  ELSE IF w = <<>> THEN "greater"
  ELSE IF Rank(v[1]) < Rank(w[1]) THEN "less" ELSE IF Rank(v[1]) > Rank(w[1]) THEN "greater" ELSE Order(Tail(v), Tail(w))
Pairs == {[v |-> v, w |-> w] : v \in Words, w \in Words}

------------------------------------------------------------------------------
Init == \/ c \in [f : {"make"}, x : Descriptions]
        \/ c \in [f : {"ticker"}, x : Pairs]
Next == FALSE /\ UNCHANGED c

Taken == [ret |-> "ok", q |-> c.x.q, p |-> c.x.p]
Refused == [ret |-> "refused", q |-> <<>>, p |-> 0]
Out ==
  IF c.f = "make"
  THEN [f |-> "descr.make", kind |-> c.x.kind, q |-> c.x.q, p |-> c.x.p,
        out |-> IF Wellformed(c.x) THEN <<Taken>> ELSE IF ~Strict(c.x) /\ Wellformed(Printed(c.x)) THEN <<Taken, Refused>> ELSE <<Refused>>]
  ELSE [f |-> "descr.ticker", v |-> c.x.v, w |-> c.x.w, out |-> <<Order(c.x.v, c.x.w)>>]
Emit == PrintT(ToJson(Out))

\* the order is a total one
Opposite(o) == CASE o = "less" -> "greater" [] o = "greater" -> "less" [] OTHER -> o
Laws == c.f = "ticker" => Order(c.x.w, c.x.v) = Opposite(Order(c.x.v, c.x.w))
=============================================================================
