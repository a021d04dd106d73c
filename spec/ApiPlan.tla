------------------------------- MODULE ApiPlan ------------------------------
(* Every request of every operation of every profile, answered in every way *)
(* while everything else is answered properly.                              *)
EXTENDS Api

Worlds == <<[cursor |-> TRUE, types |-> Types],
            [cursor |-> FALSE, types |-> <<"Property", "SubmodelElementCollection", "Range">>],
            [cursor |-> TRUE, types |-> <<"Capability", "File", "SubmodelElementList">>]>>
AllClasses == Server \cup Lost \cup Refusals \cup BadRefusals \cup Statuses \cup Bodies
\* Ways to answer a request of kind k (nothing much is claimed about untyped ones)
Answers(k, chk) ==
  CASE chk \in {"refuse", "neg"} -> (AllClasses \ Bodies) \cup {"html"}
    [] k \in {"any", "bytes"} -> {"s500", "s404e", "drop", "timeout"}
    [] OTHER -> {c \in AllClasses : c \notin {"s400o", "s400p", "s499e", "s400none", "s400list", "s400extra", "s400type", "s400kind"} /\ HasVariant(k, c)}
\* Setting up: other entities would change what follows
SetupAnswers(s) == Answers(s.k, "none") \ {"other"}

VARIABLES pr, ei, w, at, cls
vars == <<pr, ei, w, at, cls>>
\* at: <<"none">>, <<"setup", i>>, <<"neg", i>>, <<"pos", t, r>>
e == Profiles[pr].es[ei]
D == Tests(e, Worlds[w])
\* In the quick tier, only some of the many requests for single elements
Picked(t, r, n) == Thorough \/ n <= 3 \/ (t + r * 3 + ei + pr) % 7 = 0
Init == /\ pr \in DOMAIN Profiles /\ ei \in DOMAIN Profiles[pr].es /\ w \in DOMAIN Worlds
        /\ (pr * 7 + ei * 3 + w) % Parts = Part
        /\ at = <<"none">> /\ cls = "good"
Break == /\ at = <<"none">>
         /\ w = 1 \/ Thorough \/ (ei + pr) % 4 = 0
         /\ \/ \E i \in DOMAIN Setup(e) : \E c \in SetupAnswers(Setup(e)[i]) : at' = <<"setup", i>> /\ cls' = c
            \/ \E i \in DOMAIN D.neg : \E c \in Answers("error", "neg") : at' = <<"neg", i>> /\ cls' = c
            \/ \E t \in DOMAIN D.pos : \E r \in DOMAIN D.pos[t].rs : \E c \in Answers(D.pos[t].rs[r].k, D.pos[t].rs[r].chk) :
                  Picked(t, r, Len(D.pos[t].rs)) /\ at' = <<"pos", t, r>> /\ cls' = c
         /\ UNCHANGED <<pr, ei, w>>
Spec == Init /\ [][Break]_vars

Good(n) == [i \in 1..n |-> "good"]
\* The level of what was broken
Level == CASE at[1] = "none" -> 0
           [] at[1] = "setup" -> LevelSetup(Setup(e)[at[2]], cls)
           [] at[1] = "neg" -> LevelNeg(cls)
           [] at[1] = "pos" -> LET t == D.pos[at[2]] IN LevelTest(t, [Good(Len(t.rs)) EXCEPT ![at[3]] = cls])
Escapes == CASE at[1] = "setup" -> EscapesSetup(Setup(e)[at[2]], cls) [] at[1] = "pos" -> EscapesTest(D.pos[at[2]].rs[at[3]].chk, cls) [] OTHER -> EscapesTest("", cls)
\* A run in which nothing is wrong is ok; a failed test of any kind makes it fail
Healthy == at = <<"none">> => \A t \in DOMAIN D.pos : LevelTest(D.pos[t], Good(Len(D.pos[t].rs))) <= 1
NoTwins == \A i, j \in DOMAIN D.neg : i # j => D.neg[i] # D.neg[j]
\* The level of the whole run: that of the worst test
Rest == MaxOf([t \in DOMAIN D.pos |-> LevelTest(D.pos[t], Good(Len(D.pos[t].rs)))])
OfRun == IF Level = Open THEN Open ELSE IF at[1] = "setup" /\ Level >= 2 THEN Level ELSE Max2(Level, Rest)
EmitAll ==
  CSVWrite("%1$s", <<ToJson(
    IF at = <<"none">>
    THEN [kind |-> "base", pr |-> pr, profile |-> Profiles[pr].n, o |-> e.o, ei |-> ei, w |-> w, world |-> Worlds[w],
          setup |-> [i \in DOMAIN Setup(e) |-> Setup(e)[i].u], neg |-> D.neg,
          pos |-> [t \in DOMAIN D.pos |-> [us |-> Urls(D.pos[t]), dev |-> D.pos[t].dev, l |-> LevelTest(D.pos[t], Good(Len(D.pos[t].rs)))]]]
    ELSE [kind |-> "plan", pr |-> pr, profile |-> Profiles[pr].n, o |-> e.o, ei |-> ei, w |-> w, at |-> at[1], i |-> at[2],
          r |-> IF Len(at) = 3 THEN at[3] ELSE 0, c |-> cls, l |-> Level, all |-> OfRun, esc |-> Escapes])>>, IOEnv.OUT)
=============================================================================
