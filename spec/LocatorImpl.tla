----------------------------- MODULE LocatorImpl -----------------------------
(* Implementation-level model of service_locator: a table from type ids to    *)
(* shared pointers with explicit use counts; objects are destroyed when their *)
(* count drops to zero.                                                       *)
(* Checked: refinement of ServiceLocator (C18): in particular an object is    *)
(* alive exactly as long as it is registered or held, and a registered object *)
(* is replaced only through unregistering.  Bug # "none": a faulty variant.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Types, Refs, MaxObj, Bug

VARIABLES table, held, count, val, made, dead, last
vars == <<table, held, count, val, made, dead, last>>
Empty == [x \in {} |-> 0]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
None == [op |-> "", ty |-> 0, h |-> 0, r |-> 0, o |-> 0, v |-> 0]
Init == table = Empty /\ held = Empty /\ count = Empty /\ val = Empty /\ made = 0 /\ dead = {} /\ last = None
\* use counts after adding / dropping references: objects without any are destroyed
Set(c) == count' = [o \in {x \in DOMAIN c : c[x] > 0} |-> c[o]] /\ dead' = dead \cup {x \in DOMAIN c : c[x] = 0}
Plus(c, o) == [c EXCEPT ![o] = @ + 1]
Minus(c, o) == [c EXCEPT ![o] = @ - 1]
Op(op, ty, h, r, o, v) == last' = [op |-> op, ty |-> ty, h |-> h, r |-> r, o |-> o, v |-> v]

\* the object is made first and then offered to the table
RegService(ty, v) ==
  /\ made < MaxObj /\ made' = made + 1 /\ val' = val @@ (made + 1 :> v)
  /\ LET o == made + 1  c == count @@ (o :> 1)  full == ty \in DOMAIN table IN
     IF full /\ Bug # "replace" THEN /\ UNCHANGED table /\ Set(Minus(c, o)) /\ Op("reg", ty, 0, 0, o, v)
     ELSE /\ table' = (ty :> o) @@ table /\ Set(IF full THEN Minus(c, table[ty]) ELSE c) /\ Op("reg", ty, 0, 1, o, v)
  /\ UNCHANGED held
Create(h, v) ==
  /\ made < MaxObj /\ h \notin DOMAIN held /\ made' = made + 1 /\ val' = val @@ (made + 1 :> v)
  /\ held' = held @@ (h :> made + 1) /\ Set(count @@ (made + 1 :> 1)) /\ Op("create", 0, h, 1, made + 1, v) /\ UNCHANGED table
RegInstance(ty, h) ==
  /\ h \in DOMAIN held
  /\ IF ty \in DOMAIN table THEN UNCHANGED <<table, count, dead>> /\ Op("inst", ty, h, 0, 0, 0)
     ELSE table' = table @@ (ty :> held[h]) /\ Set(IF Bug = "no_share" THEN count ELSE Plus(count, held[h])) /\ Op("inst", ty, h, 1, 0, 0)
  /\ UNCHANGED <<held, val, made>>
Unregister(ty) ==
  /\ IF ty \in DOMAIN table
     THEN LET o == table[ty]  gone == IF Bug = "all_types" THEN {x \in DOMAIN table : table[x] = o} ELSE {ty} IN
          /\ table' = [x \in DOMAIN table \ gone |-> table[x]]
          /\ Set([count EXCEPT ![o] = @ - Cardinality(gone)]) /\ Op("unreg", ty, 0, 1, 0, 0)
     ELSE UNCHANGED <<table, count, dead>> /\ Op("unreg", ty, 0, 0, 0, 0)
  /\ UNCHANGED <<held, val, made>>
Lookup(ty, h) ==
  /\ h \notin DOMAIN held
  /\ IF ty \in DOMAIN table
     THEN held' = held @@ (h :> table[ty]) /\ Set(Plus(count, table[ty])) /\ Op("get", ty, h, 0, table[ty], val[table[ty]])
     ELSE UNCHANGED <<held, count, dead>> /\ Op("get", ty, h, 0, 0, 0)
  /\ UNCHANGED <<table, val, made>>
Release(h) ==
  /\ h \in DOMAIN held /\ held' = Drop(held, h) /\ Set(Minus(count, held[h])) /\ Op("drop", 0, h, 0, 0, 0)
  /\ UNCHANGED <<table, val, made>>
Next == \/ \E ty \in Types, v \in {1, 2} : RegService(ty, v)
        \/ \E h \in Refs, v \in {1, 2} : Create(h, v)
        \/ \E ty \in Types, h \in Refs : RegInstance(ty, h) \/ Lookup(ty, h)
        \/ \E ty \in Types : Unregister(ty)
        \/ \E h \in Refs : Release(h)

\* refused objects are not part of the abstract bookkeeping of values
VARIABLES what
A == INSTANCE ServiceLocator WITH map <- table
HInit == Init /\ what = Empty
HNext == Next /\ what' = IF last'.op = "create" \/ (last'.op = "reg" /\ last'.r = 1) THEN what @@ (last'.o :> last'.v) ELSE what
Spec == HInit /\ [][HNext]_<<vars, what>>
AbsNext == LET l == last' IN
  CASE l.op = "reg" -> A!RegService(l.ty, l.v, l.r, l.o, made')
    [] l.op = "create" -> A!Create(l.h, l.v, l.o)
    [] l.op = "inst" -> A!RegInstance(l.ty, l.h, l.r)
    [] l.op = "unreg" -> A!Unregister(l.ty, l.r)
    [] l.op = "get" -> A!Lookup(l.ty, l.h, l.o, l.v)
    [] l.op = "drop" -> A!Release(l.h)
Refines == A!PInit /\ [][AbsNext]_(A!pvars)
Inv == /\ A!TypeInv /\ A!Live = DOMAIN count /\ dead \cap A!Live = {}
       /\ \A o \in DOMAIN count : count[o] = Cardinality({x \in DOMAIN table : table[x] = o}) + Cardinality({h \in DOMAIN held : held[h] = o})
Stable == [][\A ty \in DOMAIN table \cap DOMAIN table' : table'[ty] = table[ty]]_vars
=============================================================================
