------------------------------ MODULE CollectTrace ------------------------------
(***************************************************************************)
(* Decides recorded metric collections: every recorder appears once, with  *)
(* what it holds now, under the collector's prefix and the name it was     *)
(* registered with (with a suffix, should several share a name); the       *)
(* aggregate has, for every numeric metric any of them holds, the sum.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, prefix, names, held
vars == <<l, prefix, names, held>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
Same == UNCHANGED <<prefix, names, held>>

Init == l = 1 /\ prefix = "" /\ names = << >> /\ held = << >>
Begin == Is("begin") /\ prefix' = E.prefix /\ names' = << >> /\ held' = << >>

ToSet1(s) == {s[i] : i \in 1..Len(s)}
Add == Is("add") /\ names' = Append(names, E.name) /\ held' = Append(held, ToSet1(E.m)) /\ UNCHANGED prefix
Change == Is("change") /\ held' = [held EXCEPT ![E.id] = ToSet1(E.m)] /\ UNCHANGED <<prefix, names>>

IsFirst(i) == \A j \in 1..(i - 1) : names[j] # names[i]
Copies(s, m) == Cardinality({i \in 1..Len(s) : s[i] = m})
Collect ==
  /\ Is("collect") /\ Same /\ E.prefix = prefix
  /\ Len(E.all) = Len(names)
  /\ \A i, j \in 1..Len(E.all) : i # j => E.all[i].k # E.all[j].k
  /\ LET sets == [i \in 1..Len(E.all) |-> ToSet1(E.all[i].m)]
     IN /\ \A i \in 1..Len(names) : IsFirst(i) => \E e \in 1..Len(E.all) : E.all[e].k = prefix \o "." \o names[i] /\ sets[e] = held[i]
        /\ \A i \in 1..Len(names) : Copies(sets, held[i]) = Copies(held, held[i])

Numeric(v) == v.t # "other"
AllNumbers == UNION {{<<i, x>> : x \in {y \in held[i] : Numeric(y.v)}} : i \in 1..Len(held)}
RECURSIVE Total(_)
Total(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN x[2].v.v + Total(s \ {x})
Aggregate ==
  /\ Is("aggregate") /\ Same
  /\ LET keys == {p[2].k : p \in AllNumbers}
     IN /\ {E.m[i].k : i \in 1..Len(E.m)} = {prefix \o "." \o k : k \in keys} /\ Len(E.m) = Cardinality(keys)
        /\ \A k \in keys : LET mine == {p \in AllNumbers : p[2].k = k}
                               got == E.m[CHOOSE i \in 1..Len(E.m) : E.m[i].k = prefix \o "." \o k].v
                           IN Numeric(got) /\ got.v = Total(mine)
                              /\ ((\A p \in mine : p[2].v.t = "int") => got.t = "int")

Map == Is("map") /\ Same /\ E.out = [i \in 1..Len(E.a) |-> E.a[i] * E.k + 1]
\* a remainder takes the sign of the dividend
Rem(x, m) == IF x < 0 THEN -((-x) % m) ELSE x % m
Reduce == /\ Is("reduce") /\ Same
          /\ IF Len(E.a) = 0 THEN E.refused = 1
             ELSE E.refused = 0 /\ E.out = FoldLeft(LAMBDA x, y : Rem(x * 3 + y, 1009), E.a[1], Tail(E.a))
Vector == /\ Is("vector") /\ Same
          /\ IF Len(E.a) # Len(E.b) THEN E.refused = 1
             ELSE E.refused = 0 /\ E.out = [i \in 1..Len(E.a) |-> CASE E.op = 0 -> E.a[i] + E.b[i] [] E.op = 1 -> E.a[i] ^^ E.b[i] [] OTHER -> E.a[i] - 2 * E.b[i]]

Next == Begin \/ Add \/ Change \/ Collect \/ Aggregate \/ Map \/ Reduce \/ Vector
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
