------------------------------- MODULE KeyReg -------------------------------
(***************************************************************************)
(* Key registries and participant sets of mkrlwe: registries are maps from  *)
(* (identity, amount) to the key added last, participant sets are sets.     *)
(* Several registries and sets exist side by side and never influence each  *)
(* other.  The whole state is observable: after the steps of a behaviour    *)
(* the driver looks up every entry of every registry and asks every set     *)
(* about every identity.                                                    *)
(*                                                                          *)
(* With Emit = "transitions" TLC writes one test per transition of the      *)
(* complete state graph (a shortest path to the source state, then the      *)
(* transition); with "behaviours" it writes random behaviours of length     *)
(* Depth.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,   \* kinds of keys: subset of {"sk", "pk", "rlk", "cjk", "rk"}
          NReg,    \* registries of each kind
          NId,     \* identities 1..NId; 0 is the reserved identity
          NAmt,    \* rotation amounts 1..NAmt (kind "rk")
          NVer,    \* different keys for the same entry
          NSet,    \* participant sets
          Emit,    \* "none", "transitions", "behaviours"
          Depth

VARIABLES reg, set, hist, n
vars == <<reg, set, hist, n>>
view == <<reg, set>>

Ids == 1..NId
AmtOf(k) == IF k = "rk" THEN 1..NAmt ELSE {0}
Entry == UNION {{k} \X (1..NReg) \X Ids \X AmtOf(k) : k \in Kinds}
Sets == 1..NSet

Init == /\ reg = [e \in Entry |-> 0]
        /\ set = [s \in Sets |-> {}]
        /\ hist = <<>> /\ n = 0

Op(nm, out, a, b, c, d, e) == [nm |-> nm, out |-> out, a |-> a, b |-> b, c |-> c, d |-> d, e |-> e]

\* e = <<kind, registry, identity, amount>>
Ops ==
  UNION {{Op("add", "ok", e, v, 0, 0, 0) : v \in 1..NVer} : e \in Entry}
  \cup {Op("del", "ok", e, 0, 0, 0, 0) : e \in Entry}
  \cup {Op("get", IF reg[e] = 0 THEN "refuse" ELSE "ok", e, reg[e], 0, 0, 0) : e \in Entry}
  \cup {Op("keycopy", "ok", e, reg[e], 0, 0, 0) : e \in {x \in Entry : reg[x] # 0 /\ x[1] \in {"sk", "pk"}}}
  \cup {Op("sadd", IF i = 0 THEN "refuse" ELSE "ok", <<>>, s, i, 0, 0) : s \in Sets, i \in Ids \cup {0}}
  \cup {Op("srem", "ok", <<>>, s, i, 0, 0) : s \in Sets, i \in Ids \cup {0}}
  \cup {Op(o, "ok", <<>>, s, t, u, 0) : o \in {"union", "inter", "pad"}, s \in Sets, t \in Sets, u \in Sets}
  \cup {Op(o, "ok", <<>>, s, u, 0, 0) : o \in {"scopy", "ctset", "snew"}, s \in Sets, u \in Sets}

Apply(o) ==
  /\ reg' = CASE o.nm = "add" -> [reg EXCEPT ![o.a] = o.b]
              [] o.nm = "del" -> [reg EXCEPT ![o.a] = 0]
              [] OTHER -> reg
  /\ set' = CASE o.nm = "sadd" /\ o.c # 0 -> [set EXCEPT ![o.b] = @ \cup {o.c}]
              [] o.nm = "srem" -> [set EXCEPT ![o.b] = @ \ {o.c}]
              [] o.nm \in {"union", "pad"} -> [set EXCEPT ![o.d] = set[o.b] \cup set[o.c]]
              [] o.nm = "inter" -> [set EXCEPT ![o.d] = set[o.b] \cap set[o.c]]
              [] o.nm \in {"scopy", "ctset"} -> [set EXCEPT ![o.c] = set[o.b]]
              [] o.nm = "snew" -> [set EXCEPT ![o.c] = {}]
              [] OTHER -> set
  /\ n' = n + 1
  /\ hist' = IF Emit = "none" THEN hist ELSE Append(hist, o)

\* what every observation must show afterwards
Obs(r, s) == [reg |-> {<<e[1], e[2], e[3], e[4], r[e]>> : e \in {x \in Entry : r[x] # 0}}, set |-> s]

Next ==
  IF Emit = "behaviours"
  THEN /\ n < Depth
       /\ \E o \in {RandomElement(Ops)} : Apply(o)
  ELSE \E o \in Ops : /\ Apply(o)
                      /\ (Emit = "transitions" => PrintT("TST " \o ToJson([ops |-> Append(hist, o), obs |-> Obs(reg', set')])))

Spec == Init /\ [][Next]_vars
Out == (Emit = "behaviours" /\ n = Depth) => PrintT("TST " \o ToJson([ops |-> hist, obs |-> Obs(reg, set)]))

------------------------------------------------------------------------------
(* properties *)
TypeOK == /\ \A e \in Entry : reg[e] \in 0..NVer
          /\ \A s \in Sets : set[s] \subseteq Ids
\* the reserved identity never becomes a participant
NoReserved == \A s \in Sets : 0 \notin set[s]
\* an operation touches one entry or one set
OneEntry == [][\/ set' = set /\ \E e \in Entry : \A f \in Entry \ {e} : reg'[f] = reg[f]
               \/ reg' = reg /\ \E s \in Sets : \A t \in Sets \ {s} : set'[t] = set[t]]_<<reg, set>>
=============================================================================
