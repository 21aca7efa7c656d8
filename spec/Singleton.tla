----------------------------- MODULE Singleton -----------------------------
(* Abstract specification of the process-wide instances.  Each type has at   *)
(* most one object; it is under construction by one thread, then complete;   *)
(* a request returns only the complete object of its type.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES obj, ctor, pend
pvars == <<obj, ctor, pend>>
\* obj: type -> number of its object once known; ctor: type -> "none" | "busy" | "done"; pend: thread -> type requested

Empty == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

PInit(pre) == /\ obj = Empty /\ pend = Empty
              /\ ctor = [ty \in {pre[i] : i \in DOMAIN pre} |-> "done"] \* constructed before the program started
Request(t, ty) == t \notin DOMAIN pend /\ pend' = pend @@ (t :> ty) /\ UNCHANGED <<obj, ctor>>
\* constructors are observed only for types of ours ("user"): nothing else is constructed without a request
CtorBegin(t, ty) == /\ Get(ctor, ty, "none") = "none" /\ \E u \in DOMAIN pend : pend[u] = ty
                    /\ ctor' = (ty :> "busy") @@ ctor /\ UNCHANGED <<obj, pend>>
CtorEnd(t, ty) == /\ Get(ctor, ty, "none") = "busy" /\ ctor' = [ctor EXCEPT ![ty] = "done"] /\ UNCHANGED <<obj, pend>>
\* user: is the constructor of the type observed; o: number of the object, ok: the object is complete
Return(t, ty, o, ok, user) ==
  /\ t \in DOMAIN pend /\ pend[t] = ty /\ pend' = Drop(pend, t)
  /\ ok
  /\ user => Get(ctor, ty, "none") = "done"
  /\ Get(obj, ty, o) = o /\ \A u \in DOMAIN obj : u # ty => obj[u] # o
  /\ obj' = (ty :> o) @@ obj
  /\ UNCHANGED ctor
TypeInv == \A a, b \in DOMAIN obj : a # b => obj[a] # obj[b]
=============================================================================
