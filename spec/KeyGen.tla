------------------------------- MODULE KeyGen -------------------------------
(***************************************************************************)
(* Randomness and shape of everything that is generated: secret keys, public *)
(* keys, switching, relinearization, rotation and conjugation keys, the      *)
(* common reference string, and encryptions.                                 *)
(*                                                                          *)
(* Every generation consists of named components (a secret, a mask, an       *)
(* error term per digit, a reference element per digit).  The machine says    *)
(* which components an operation has, which law each of them obeys, which      *)
(* identity and amount the result carries, and that every component is drawn  *)
(* freshly: no draw ever repeats an earlier one, whichever object, party or   *)
(* process made it.                                                            *)
(*                                                                          *)
(* The module is used in both directions.  With Mode = "gen" TLC generates    *)
(* histories of operations, which the driver executes on the real code,       *)
(* recording for each operation the components it could solve for (using the  *)
(* secret keys and the reference string).  With Mode = "trace" TLC reads such *)
(* recordings and decides for every event whether the machine allows it.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,       \* "gen", "mc", "trace"
          NP,         \* parties
          NAmt,       \* rotation amounts 1..NAmt of the model (the driver maps them to amounts of the ring; 1..NDef have a default reference)
          NDef,
          NObj,       \* key generators, encryptors
          Depth,
          LevelMax,   \* levels of encryptions
          TraceFile

VARIABLES kg, en,     \* number of key generators and encryptors that exist
          sk, pk,     \* sk[p]: distribution of the party's current secret ("none"); pk[p]: there is a public key for it
          crs,        \* amounts with a reference element
          draws,      \* draws made so far (their names)
          hist, n,
          out         \* verdict of the last step in trace mode
vars == <<kg, en, sk, pk, crs, draws, hist, n, out>>

Parties == 1..NP
Amts == 1..NAmt
Dists == {"default", "p10", "p33", "p80", "sparse1", "sparse8", "sparseN", "gauss"}
Routes == {"rlwe", "rlwentt", "ptxt", "ptxtcoeff", "msg", "msgnew", "expand"}

Op(nm, o, p, a, s) == [nm |-> nm, o |-> o, p |-> p, a |-> a, s |-> s]

\* pk: the error left with the mask the public key carries; pkc: with the reference string's first element
\* ---- components ----------------------------------------------------------
\* <<name, law, number>>: number is "beta" for one per digit
Comps(op) ==
  CASE op.nm = "gensk" -> {<<"s", op.s, 1>>}
    [] op.nm \in {"genpair"} -> {<<"s", "default", 1>>, <<"pk", "err", 1>>, <<"pkc", "err", 1>>}
    [] op.nm \in {"genpairs"} -> {<<"s", op.s, 1>>, <<"pk", "err", 1>>, <<"pkc", "err", 1>>}
    [] op.nm = "genpk" -> {<<"pk", "err", 1>>, <<"pkc", "err", 1>>}
    [] op.nm = "generr" -> {<<"e", "err", 1>>}
    [] op.nm = "genswk" -> {<<"swk", "err", 0>>}
    [] op.nm = "genrlk" -> {<<"r", op.s, 1>>, <<"b", "err", 0>>, <<"d", "err", 0>>, <<"v", "err", 0>>}
    [] op.nm = "genrk" -> {<<"rk", "err", 0>>}
    [] op.nm = "gendef" -> {<<"rk", "err", -1>>}
    [] op.nm = "genck" -> {<<"ck", "err", 0>>}
    [] op.nm = "addcrs" -> {<<"crs", "uniform", 0>>}
    [] op.nm = "params" -> {<<"crs", "uniform", -2>>}
    [] op.nm = "enc" -> {<<"u", "mask", 1>>, <<"e0", "err", 1>>, <<"e1", "err", 1>>}
    [] op.nm = "roundtrip" -> {<<"noise", "noise", 1>>}
    [] OTHER -> {}

Enabled(op) ==
  CASE op.nm = "newkg" -> kg < NObj
    [] op.nm = "newenc" -> en < NObj
    [] op.nm \in {"gensk", "genpair", "genpairs", "generr"} -> op.o <= kg
    [] op.nm \in {"genpk", "genswk", "genrlk", "gendef", "genck"} -> op.o <= kg /\ sk[op.p] # "none"
    [] op.nm = "genrk" -> op.o <= kg /\ sk[op.p] # "none" /\ op.a \in crs
    [] op.nm = "addcrs" -> op.a \notin crs
    [] op.nm = "enc" -> op.o <= en
    [] op.nm = "roundtrip" -> op.o <= en /\ pk[op.p]
    [] OTHER -> FALSE

Ops == {op \in
        {Op("newkg", 0, 0, 0, ""), Op("newenc", 0, 0, 0, "")}
   \cup {Op("gensk", o, p, 0, d) : o \in 1..NObj, p \in Parties, d \in Dists}
   \cup {Op("genpairs", o, p, 0, d) : o \in 1..NObj, p \in Parties, d \in {"sparse1", "sparse8", "sparseN"}}
   \cup {Op("genrlk", o, p, 0, d) : o \in 1..NObj, p \in Parties, d \in {"default", "gauss"}}
   \cup {Op(x, o, p, 0, "") : x \in {"genpair", "genpk", "genswk", "gendef", "genck", "generr"}, o \in 1..NObj, p \in Parties}
   \* into an object that was generated before: what it held makes no difference
   \cup {Op(x, o, p, 0, "over") : x \in {"genswk", "gendef", "generr"}, o \in 1..NObj, p \in Parties}
   \cup {Op("genrk", o, p, a, "") : o \in 1..NObj, p \in Parties, a \in Amts}
   \cup {Op("addcrs", 0, 0, a, "") : a \in Amts}
   \cup {Op("enc", o, p, l, r) : o \in 1..NObj, p \in Parties, l \in 0..LevelMax, r \in Routes}
   \cup {Op("roundtrip", o, p, l, r) : o \in 1..NObj, p \in Parties, l \in 0..LevelMax, r \in Routes} : Enabled(op)}

\* names of the draws of an operation; the model uses <<operation number, component>>, the recordings the digest of the value
Effect(op, newdraws) ==
  /\ kg' = IF op.nm = "newkg" THEN kg + 1 ELSE kg
  /\ en' = IF op.nm = "newenc" THEN en + 1 ELSE en
  /\ sk' = CASE op.nm \in {"gensk", "genpairs"} -> [sk EXCEPT ![op.p] = op.s]
             [] op.nm = "genpair" -> [sk EXCEPT ![op.p] = "default"]
             [] OTHER -> sk
  /\ pk' = CASE op.nm \in {"genpair", "genpairs", "genpk"} -> [pk EXCEPT ![op.p] = TRUE]
             [] op.nm = "gensk" -> [pk EXCEPT ![op.p] = FALSE]
             [] OTHER -> pk
  /\ crs' = IF op.nm = "addcrs" THEN crs \cup {op.a} ELSE crs
  /\ draws' = draws \cup newdraws
  /\ n' = n + 1

Init0 == kg = 0 /\ en = 0 /\ sk = [p \in Parties |-> "none"] /\ pk = [p \in Parties |-> FALSE] /\ crs = 1..NDef /\ draws = {}

\* ---- generation ------------------------------------------------------------
Digits == 2   \* of the abstract model
Fresh(op) == UNION {{<<n + 1, c[1], i>> : i \in 1..(IF c[3] = 1 THEN 1 ELSE Digits)} : c \in Comps(op)}
Weight(op) == CASE op.nm \in {"newkg", "newenc"} -> 6 [] op.nm \in {"genpair", "genrlk", "genck"} -> 3 [] OTHER -> 1
Names == {"newkg", "newenc", "gensk", "genpair", "genpairs", "genpk", "genswk", "genrlk", "genrk", "gendef", "genck", "generr", "addcrs", "enc", "roundtrip"}
GenNext ==
  /\ n < Depth
  /\ IF Mode = "mc"
     THEN \E op \in Ops : Effect(op, Fresh(op)) /\ hist' = hist /\ out' = ""
     ELSE \E nm \in {LET all == {op.nm : op \in Ops}
                           rep == all \cap (IF n % 50 < 40 THEN {"enc"} ELSE {"gensk", "generr", "genpk"})
                       IN IF Mode = "genlong" /\ n > 12 /\ rep # {} /\ RandomElement(1..5) > 1 THEN RandomElement(rep) ELSE RandomElement(all)} : \E op \in {RandomElement({x \in Ops : x.nm = nm})} :
            Effect(op, Fresh(op)) /\ hist' = Append(hist, op) /\ out' = ""
Emit == (Mode \in {"gen", "genlong"} /\ n = Depth) => PrintT("TST " \o ToJson(hist))

\* ---- trace validation --------------------------------------------------------
\* An event: [op, id (0/1: every object carries the right identity), amt (0/1: and the right amount), beta (digits), deg (ring degree),
\*   sig (the configured width of the errors, in tenths),
\*   np2 (number of default amounts), comps: sequence of [nm, dig, amt, tok, cons, max, var, nz, zero, pos, low]]
\*   cons: the value is the same small integer in every modulus; max: largest coefficient; var: 100 * mean square; nz: non-zero coefficients;
\*   zero, pos, low: per mille of zero / positive (of the non-zero) / low-half coefficients
Trace == IF Mode = "trace" THEN JsonDeserialize(TraceFile) ELSE <<>>

MaxErr(ev) == (6 * ev.sig) \div 10      \* six times the configured width
ErrVar(ev) == ev.sig * ev.sig           \* 100 times its square
Near(x, c, tol) == x >= c - tol /\ x <= c + tol
\* tolerances are about nine standard deviations for the ring degree
Tol(deg) == IF deg >= 4096 THEN 75 ELSE IF deg >= 1024 THEN 150 ELSE 300
Law(law, c, ev) ==
  LET deg == ev.deg big == deg >= 512 IN
  CASE law \in {"err", "gauss"} -> c.cons = 1 /\ c.max <= MaxErr(ev) /\ c.nz > 0 /\ (big => c.var >= (ErrVar(ev) * 586) \div 1000 /\ c.var <= (ErrVar(ev) * 1514) \div 1000 /\ Near(c.pos, 500, Tol(deg)))
    [] law = "default" -> c.cons = 1 /\ c.max = 1 /\ (big => c.zero >= 200 /\ c.zero <= 650 /\ Near(c.pos, 500, Tol(deg)))
    [] law = "p10" -> c.cons = 1 /\ c.max = 1 /\ (big => Near(c.zero, 100, Tol(deg) \div 2) /\ Near(c.pos, 500, Tol(deg)))
    [] law = "p33" -> c.cons = 1 /\ c.max = 1 /\ (big => Near(c.zero, 333, Tol(deg)) /\ Near(c.pos, 500, Tol(deg)))
    [] law = "p80" -> c.cons = 1 /\ c.max = 1 /\ (big => Near(c.zero, 800, Tol(deg)))
    [] law = "sparse1" -> c.cons = 1 /\ c.max = 1 /\ c.nz = 1
    [] law = "sparse8" -> c.cons = 1 /\ c.max = 1 /\ c.nz = 8
    [] law = "sparseN" -> c.cons = 1 /\ c.max = 1 /\ c.nz = deg
    [] law = "mask" -> c.cons = 1 /\ c.max <= MaxErr(ev) /\ c.nz > 0 /\ (big => c.zero <= 850 /\ Near(c.pos, 500, 2 * Tol(deg)))
    [] law = "uniform" -> big => Near(c.low, 500, Tol(deg))
    [] law = "noise" -> c.cons = 1 /\ c.nz > 0 /\ c.max <= MaxErr(ev) * deg * (1 + (IF sk[ev.op.p] = "gauss" THEN MaxErr(ev) ELSE 1)) + MaxErr(ev)
    [] OTHER -> FALSE

LawOf(op, nm) == LET S == {c \in Comps(op) : c[1] = nm} IN IF S = {} THEN "none" ELSE (CHOOSE c \in S : TRUE)[2]
\* how many components of a name there must be
Expected(ev, c) == CASE c[3] = 1 -> 1 [] c[3] = 0 -> ev.beta [] c[3] = -1 -> ev.beta * ev.np2 [] OTHER -> ev.beta * (5 + ev.np2)
CountOk(ev) == /\ \A c \in Comps(ev.op) : Cardinality({i \in DOMAIN ev.comps : ev.comps[i].nm = c[1]}) = Expected(ev, c)
               /\ \A i \in DOMAIN ev.comps : LawOf(ev.op, ev.comps[i].nm) # "none"
               /\ Cardinality({<<ev.comps[i].nm, ev.comps[i].dig, ev.comps[i].amt>> : i \in DOMAIN ev.comps}) = Len(ev.comps)
\* sparse secrets of small weight may coincide by chance, the noise of a decryption is no draw, and pkc is pk's error again
IsDraw(op, c) == LawOf(op, c.nm) \notin {"noise", "sparse1"} /\ c.nm # "pkc"
Toks(ev) == {ev.comps[i].tok : i \in {j \in DOMAIN ev.comps : IsDraw(ev.op, ev.comps[j])}}
NumDraws(ev) == Cardinality({i \in DOMAIN ev.comps : IsDraw(ev.op, ev.comps[i])})

\* which guarantee a broken law belongs to: the defining relation, the randomness, or both
Kind(law, c, op, ev) ==
  CASE op.nm = "enc" \/ law = "uniform" -> "law: "
    [] law = "noise" \/ c.cons # 1 -> "relation: "
    [] law = "err" /\ c.max <= MaxErr(ev) -> "law: "
    [] OTHER -> "both: "

Verdict(ev) ==
  CASE ev.out = "panic" -> "relation: the operation failed: " \o ev.msg
    [] ev.op.nm # "params" /\ ~Enabled(ev.op) -> "machinery: operation not possible in this history"
    [] ~CountOk(ev) -> "relation: wrong components"
    [] ev.id # 1 -> "relation: wrong identity"
    [] ev.amt # 1 -> "relation: wrong amount"
    [] \E i \in DOMAIN ev.comps : ~Law(LawOf(ev.op, ev.comps[i].nm), ev.comps[i], ev) ->
         LET i == CHOOSE j \in DOMAIN ev.comps : ~Law(LawOf(ev.op, ev.comps[j].nm), ev.comps[j], ev)
             c == ev.comps[i]
         IN Kind(LawOf(ev.op, c.nm), c, ev.op, ev) \o "component " \o c.nm \o " digit " \o ToString(c.dig) \o " does not obey " \o LawOf(ev.op, c.nm) \o ": " \o ToString(c)
    [] Cardinality(Toks(ev)) # NumDraws(ev) \/ Toks(ev) \cap draws # {} ->
         "fresh: a draw repeats an earlier one: " \o ToString({<<ev.comps[i].nm, ev.comps[i].dig>> : i \in {j \in DOMAIN ev.comps :
             IsDraw(ev.op, ev.comps[j]) /\ (ev.comps[j].tok \in draws \/ \E k \in DOMAIN ev.comps : k # j /\ ev.comps[k].tok = ev.comps[j].tok)}})
    [] OTHER -> "ok"

TraceNext ==
  /\ n < Len(Trace)
  /\ LET ev == Trace[n + 1] IN
     IF ev.op.nm = "process"      \* another process takes over: objects and keys are gone, the draws remain
     THEN /\ kg' = 0 /\ en' = 0 /\ sk' = [p \in Parties |-> "none"] /\ pk' = [p \in Parties |-> FALSE] /\ crs' = 1..NDef
          /\ draws' = draws /\ n' = n + 1 /\ out' = "ok" /\ UNCHANGED hist
     ELSE /\ out' = Verdict(ev)
          /\ Effect(ev.op, Toks(ev))
          /\ UNCHANGED hist
Report == (Mode = "trace" /\ n > 0 /\ out # "ok") => PrintT("BAD " \o ToJson(<<n, out>>))
Done == (Mode = "trace" /\ n = Len(Trace)) => PrintT("END " \o ToString(n) \o " " \o ToString(Cardinality(draws)))

Init == Init0 /\ hist = <<>> /\ n = 0 /\ out = ""
Next == IF Mode = "trace" THEN TraceNext ELSE GenNext
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TypeOK == /\ kg \in 0..NObj /\ en \in 0..NObj
          /\ \A p \in Parties : sk[p] \in Dists \cup {"none"} /\ (pk[p] => sk[p] # "none")
          /\ 1..NDef \subseteq crs
\* every draw is new: the number of draws is the number of draws all operations made
NoRepeat == [][\A op \in Ops : (Mode = "mc" /\ Effect(op, Fresh(op))) => Cardinality(draws') = Cardinality(draws) + Cardinality(Fresh(op))]_vars
\* keys are never generated without their prerequisites
Prereq == \A p \in Parties : pk[p] => kg > 0
mcview == <<kg, en, sk, pk, crs>>
=============================================================================
