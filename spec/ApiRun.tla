-------------------------------- MODULE ApiRun ------------------------------
(* C17, C20: the course of a compliance run.  The run walks over the        *)
(* selected operations of the profile; the server decides, per operation,   *)
(* whether setting up succeeds and which of its tests fail.                 *)
EXTENDS ApiSelect

\* Filters: none, and texts (code points)
Pats == <<<<>>, <<126>>, Cps("Get") \o <<42>>, <<42>> \o Cps("-Metadata"), <<126, 42>> \o Cps("-Path"), Cps("GetAll") \o <<42, 126, 42>> \o Cps("-Reference"),
          Cps("GetSubmodelById"), Cps("GetSubmodelById") \o <<42>>, <<126>> \o Cps("GetSubmodelById"), Cps("GetDescription") \o <<58>> \o Cps("GetThumbnail"),
          Cps("getdescription"), Cps("NoSuchOperation"), <<42>>, <<126, 42>>, <<58, 126, 58>>, Cps("Get") \o <<63>> \o Cps("escription"),
          <<42, 91>> \o Cps("A-B") \o <<93, 42>>, <<32, 126>> \o Cps("GetAll") \o <<42>>, Cps("GenerateSerializationByIds") \o <<58, 42>> \o Cps("ByPath") \o <<126, 42>> \o Cps("-") \o <<42>>,
          Cps("GetDescription") \o <<58>> \o Cps("GetDescription")>>
\* How the first request is answered: any answer will do
Reaches == {"good", "s500", "s404e", "drop", "timeout"}
Up(r) == r \notin Lost
\* What the server does to an operation: fail while setting up, fail all (negative or positive) tests, or behave
Moods == {"well", "setup", "neg", "pos"}

World == [cursor |-> TRUE, types |-> Types]
Entries == UNION {{Profiles[p].es[i] : i \in DOMAIN Profiles[p].es} : p \in DOMAIN Profiles}
TestTab == [e \in Entries |-> Tests(e, World)]
VARIABLES pr, fi, dry, reach, mood,      \* the configuration and the server
          phase, k, listed, sent, tally, level
vars == <<pr, fi, dry, reach, mood, phase, k, listed, sent, tally, level>>
Has == fi # 0
FilOf(i) == IF i = 0 THEN <<>> ELSE Pats[i]
Fil == FilOf(fi)
\* (tabulated)
SelTab == [p \in DOMAIN Profiles, i \in 0..Len(Pats) |-> Selected(i # 0, FilOf(i), p)]
Sel == SelTab[pr, fi]
\* mood: [at |-> which selected operation (0: none), m |-> what happens there]
Init == /\ pr \in DOMAIN Profiles /\ fi \in 0..Len(Pats)
        /\ (pr * 5 + fi) % Parts = Part
        /\ dry \in BOOLEAN /\ reach \in Reaches
        /\ \/ mood = [at |-> 0, m |-> "well"]
           \/ ~dry /\ reach = "good" /\ \E i \in DOMAIN Sel : \E m \in Moods \ {"well"} : mood = [at |-> i, m |-> m]
                   /\ (Thorough \/ (i * 7 + fi + pr) % 5 = 0)
        /\ phase = "start" /\ k = 0 /\ listed = <<>> /\ sent = 0 /\ tally = <<0, 0, 0, 0>> /\ level = 0
Try == /\ phase = "start"
       /\ IF dry THEN phase' = "ops" /\ level' = 1 /\ sent' = 0
          ELSE IF Up(reach) THEN phase' = "ops" /\ level' = 0 /\ sent' = 1
          ELSE phase' = "done" /\ level' = 3 /\ sent' = 1
       /\ UNCHANGED <<pr, fi, dry, reach, mood, k, listed, tally>>
MoodOf(i) == IF mood.at = i THEN mood.m ELSE "well"
\* Requests of the tests of an operation
RECURSIVE Total(_)
Total(ts) == IF ts = <<>> THEN 0 ELSE Len(ts[1].rs) + Total(Tail(ts))
Warns(ts) == \E i \in DOMAIN ts : ts[i].warn
\* Everything is answered with 500: which tests fail?  (Those with typed responses; nothing is said of the others.)
Typed(t) == t.rs # <<>> /\ \A i \in DOMAIN t.rs : t.rs[i].k \notin {"any", "bytes"} \/ t.rs[i].chk = "refuse"
Clear(d) == \A i \in DOMAIN d.pos : Typed(d.pos[i]) \/ d.pos[i].rs = <<>>
Operation ==
  /\ phase = "ops" /\ k < Len(Sel)
  /\ LET e == Sel[k + 1]
         d == TestTab[e]
         m == MoodOf(k + 1)
         setupFails == m = "setup" /\ Setup(e) # <<>>
         negFail == IF m = "neg" THEN Len(d.neg) ELSE 0
         posFail == IF m = "pos" THEN Cardinality({i \in DOMAIN d.pos : Typed(d.pos[i])}) ELSE 0
     IN /\ listed' = Append(listed, e.o)
        /\ IF dry THEN UNCHANGED <<sent, tally, level>>
           ELSE IF setupFails THEN sent' = sent + 1 /\ level' = Max2(level, 3) /\ UNCHANGED tally
           ELSE /\ sent' = sent + Len(Setup(e)) + Len(d.neg) + Total(d.pos)
                /\ tally' = <<tally[1] + Len(d.neg) - negFail, tally[2] + negFail, tally[3] + Len(d.pos) - posFail, tally[4] + posFail>>
                /\ level' = Max2(level, IF negFail + posFail > 0 THEN 3 ELSE IF Warns(d.pos) THEN 1 ELSE 0)
  /\ k' = k + 1
  /\ UNCHANGED <<pr, fi, dry, reach, mood, phase>>
Finish == /\ phase = "ops" /\ k = Len(Sel)
          /\ phase' = "done"
          /\ UNCHANGED <<pr, fi, dry, reach, mood, k, listed, sent, tally, level>>
Next == Try \/ Operation \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Names(es) == [i \in DOMAIN es |-> es[i].o]
\* Only selected operations, in order; all of them unless the server is down
Exactly == listed = SubSeq(Names(Sel), 1, Len(listed))
Complete == phase = "done" => IF dry \/ Up(reach) THEN listed = Names(Sel) ELSE listed = <<>> /\ level = 3 /\ sent = 1
DrySendsNothing == dry => sent = 0 /\ tally = <<0, 0, 0, 0>>
\* Nothing but the chosen operation fails
Local == phase = "done" /\ mood.at = 0 /\ (dry \/ Up(reach)) => level <= 1 /\ tally[2] = 0 /\ tally[4] = 0
Terminates == <>(phase = "done")
Certain == mood.m # "pos" \/ Clear(TestTab[Sel[mood.at]])
EmitAll == phase = "done" =>
  CSVWrite("%1$s", <<ToJson([pr |-> pr, has |-> Has, f |-> Fil, dry |-> dry, reach |-> reach, at |-> mood.at, m |-> mood.m, sel |-> Names(Sel),
                             setups |-> [i \in DOMAIN Sel |-> Len(Setup(Sel[i]))],
                             listed |-> listed, sent |-> sent, tally |-> tally, level |-> level, up |-> Up(reach), certain |-> Certain])>>, IOEnv.OUT)
=============================================================================
