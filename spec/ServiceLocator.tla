--------------------------- MODULE ServiceLocator ---------------------------
(* Abstract specification of service_locator: a map from types to shared     *)
(* objects.  Objects are numbered in the order of their (successful or       *)
(* refused) creation; an object lives while it is registered or held.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES map, what, held, made
pvars == <<map, what, held, made>>
\* map: type -> object; what: object -> value its virtual function returns; held: user reference -> object

Empty == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Range(f) == {f[x] : x \in DOMAIN f}
PInit == map = Empty /\ what = Empty /\ held = Empty /\ made = 0

Live == Range(map) \cup Range(held)
\* register_service: the object is created by the call
\* (a refused registration may or may not have made an object: m is the number of objects made so far)
RegService(ty, v, r, o, m) ==
  /\ o = made + 1 /\ made' = m
  /\ IF r = 1 THEN m = o ELSE m \in {made, o}
  /\ r = (IF ty \in DOMAIN map THEN 0 ELSE 1)
  /\ IF r = 1 THEN map' = map @@ (ty :> o) /\ what' = what @@ (o :> v) ELSE UNCHANGED <<map, what>>
  /\ UNCHANGED held
\* an object whose construction fails: nothing is registered; the exception may be missing only where registering is refused anyway
RegFailing(ty, threw, r, m) ==
  /\ r = 0 /\ (threw = 1 \/ ty \in DOMAIN map)
  /\ m \in {made, made + 1} /\ made' = m /\ UNCHANGED <<map, what, held>>
\* creation of an object by the user, who keeps reference h to it
Create(h, v, o) ==
  /\ o = made + 1 /\ made' = o /\ h \notin DOMAIN held
  /\ held' = held @@ (h :> o) /\ what' = what @@ (o :> v) /\ UNCHANGED map
RegInstance(ty, h, r) ==
  /\ h \in DOMAIN held
  /\ r = (IF ty \in DOMAIN map THEN 0 ELSE 1)
  /\ IF r = 1 THEN map' = map @@ (ty :> held[h]) ELSE UNCHANGED map
  /\ UNCHANGED <<what, held, made>>
Unregister(ty, r) ==
  /\ r = (IF ty \in DOMAIN map THEN 1 ELSE 0)
  /\ map' = Drop(map, ty) /\ UNCHANGED <<what, held, made>>
IsRegistered(ty, r) == r = (IF ty \in DOMAIN map THEN 1 ELSE 0) /\ UNCHANGED pvars
\* lookup: o = 0 means nothing; the user keeps the reference as h if h # 0; v is what the virtual function returns
Lookup(ty, h, o, v) ==
  /\ IF ty \in DOMAIN map THEN o = map[ty] /\ v = what[o] ELSE o = 0 /\ v = 0
  /\ held' = IF h # 0 /\ o # 0 THEN (h :> o) @@ held ELSE held
  /\ UNCHANGED <<map, what, made>>
Release(h) == held' = Drop(held, h) /\ UNCHANGED <<map, what, made>>
\* a use of a held object
Use(h, v) == h \in DOMAIN held /\ v = what[held[h]] /\ UNCHANGED pvars
TypeInv == Live \subseteq DOMAIN what /\ \A o \in DOMAIN what : o <= made
=============================================================================
