-------------------------------- MODULE Note ---------------------------------
(* Histories of annotating a supplement.                                     *)
(*   K03  annotations are kept under what they were given for                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES full, h, sts

Big == IOEnv.TIER = "thorough"

RECURSIVE Seq_(_)
Seq_(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seq_(s \ {x})

Subs == {"Itself", "Global", "Exception"}
Items == {"default", "no1", "no2", "type", "field", "variant"}
Names == {"Note", "Other"}
\* a and b are of one type, text of another one; huge does not fit
Values == {"a", "b", "text", "huge"}
Call(by, sub, item, name, v) == [by |-> by, sub |-> sub, item |-> item, name |-> name, v |-> v]
Calls ==
  {Call("itself", "Itself", "default", n, v) : n \in Names, v \in Values}
    \cup {Call("default", s, "default", n, v) : s \in Subs, n \in Names, v \in Values}
    \cup {Call("any", s, i, n, v) : s \in Subs, i \in Items, n \in Names, v \in Values}
Few == {x \in Calls : /\ x.sub # "Exception" /\ x.item \in {"default", "no1"} /\ x.v # "b" /\ (x.by = "any" \/ x.name = "Note")
                      /\ (x.name = "Note" \/ x.v # "text")}
Calls2 == {x \in Calls : x.item \in {"default", "no1", "field"} /\ x.v # "text" /\ (x.by = "any" \/ x.v = "a")}
Least == {x \in Few : x.by = "any" /\ x.item = "default" /\ x.v # "text"}
\* calls on a supplement which is full
Close == {x \in Few : x.by = "any" /\ (x.sub = "Itself" \/ x.v = "a") /\ (x.item = "default" \/ x.name = "Note")}

\* pairs of what is returned and what the supplement has afterwards; nothing more fits into the full default item
Key(x) == <<x.sub, x.item, x.name>>
Has(a, k) == \E n \in a : n[1] = k
Put(a, x) == {n \in a : n[1] # Key(x)} \cup {<<Key(x), x.v>>}
Crowded(x) == full /\ x.sub = "Itself" /\ x.item = "default"
Step(a, x) ==
  IF x.v = "huge" THEN {<<"refused", a>>}
  ELSE IF Crowded(x) /\ ~Has(a, Key(x)) THEN {<<"refused", a>>}
  ELSE {<<IF Has(a, Key(x)) THEN "replaced" ELSE "new", Put(a, x)>>}
         \cup (IF Crowded(x) THEN {<<"refused", a>>} ELSE {})

Start == IF full THEN {<<<<"Itself", "default", "Note">>, "a">>} ELSE {}
Init == /\ full \in BOOLEAN
        /\ h = <<>>
        /\ sts = {<<<<>>, Start>>}
Next ==
  /\ Len(h) < (IF \A i \in DOMAIN h : h[i] \in Few THEN (IF Big /\ ~full THEN 4 ELSE 3) ELSE 2)
  /\ \E x \in (IF Len(h) = 3 THEN Least ELSE IF full THEN Close ELSE IF h = <<>> THEN Calls ELSE IF Len(h) = 1 THEN Calls2 \cup Few ELSE Few) :
       /\ h' = Append(h, x)
       /\ sts' = UNION {{<<Append(s[1], r[1]), r[2]>> : r \in Step(s[2], x)} : s \in sts}
  /\ UNCHANGED full

See(a) == Seq_({<<n[1][1], n[1][2], n[1][3], n[2]>> : n \in a})
Emit == PrintT(ToJson([f |-> "note.run", full |-> full, calls |-> h,
                       out |-> Seq_({[ret |-> s[1], see |-> See(s[2])] : s \in sts})]))

\* one annotation for each place; refused calls change nothing
Laws ==
  \A s \in sts :
    /\ \A a, b \in s[2] : a[1] = b[1] => a = b
    /\ \A a \in s[2] : a[2] # "huge"
    /\ \A i \in DOMAIN h : s[1][i] # "refused" => Has(s[2], Key(h[i]))
=============================================================================
