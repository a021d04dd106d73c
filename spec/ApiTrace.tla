------------------------------ MODULE ApiTrace ------------------------------
(* Whole runs recorded from the implementation against a server that        *)
(* answers any request in any way, judged.                                  *)
EXTENDS ApiSelect

Trace == ndJsonDeserialize(IOEnv.TRACE \o IOEnv.PART)
VARIABLE l
Init == l \in DOMAIN Trace
Spec == Init /\ [][UNCHANGED l]_l

Ans(t) == [i \in DOMAIN t.rs |-> t.rs[i].c]
Bad(k, what) == {[p |-> k, w |-> what]}

\* Setting up: the requests are made in order until one fails
JudgeSetup(s, e) ==
  LET want == Setup(e)
      n == Len(s.rs)
      ls == [i \in 1..n |-> IF i <= Len(want) THEN LevelSetup(want[i], s.rs[i].c) ELSE 0]
      fails == {i \in 1..n : ls[i] >= 2}
  IN IF n > Len(want) \/ \E i \in 1..n : i <= Len(want) /\ s.rs[i].u # want[i].u THEN Bad("C20", "setup requests of " \o e.o)
     ELSE IF fails = {} /\ n # Len(want) THEN Bad("C20", "setup of " \o e.o \o " is not complete")
     ELSE IF \E i \in fails : i # n THEN Bad("C20", "setup of " \o e.o \o " went on")
     ELSE IF s.l # MaxOf(ls) /\ ~(s.l = 3 /\ MaxOf(ls) = 2 /\ s.rs[n].c = "empty") THEN Bad("C20", "setup level of " \o e.o)
     ELSE {}
JudgeNeg(ts, d, o) ==
  (IF SameBag([i \in DOMAIN ts |-> Urls(ts[i])], [i \in DOMAIN d |-> <<d[i]>>]) THEN {} ELSE Bad("C18", "negative tests of " \o o))
  \cup UNION {IF Len(ts[i].rs) = 1 /\ (ts[i].l < 2) # (LevelNeg(ts[i].rs[1].c) < 2) THEN Bad("C18", "verdict of " \o ts[i].rs[1].u \o " answered " \o ts[i].rs[1].c) ELSE {}
              : i \in DOMAIN ts}
\* The definitions a recorded test may be
Defs(t, d) == {i \in DOMAIN d : Urls(d[i]) = Urls(t) \/ (d[i].dev # <<>> /\ d[i].dev = Urls(t))}
Cut(t) == t.rs # <<>> /\ t.rs[Len(t.rs)].c \in Lost
Joined(t) == IF t.rs = <<>> THEN "" ELSE t.rs[1].u \o " answered " \o t.rs[1].c
JudgePos(ts, d, o) ==
  LET want == Loose(o, [i \in DOMAIN d |-> Urls(d[i])])
      known == Loose(o, [i \in DOMAIN d |-> IF d[i].dev # <<>> THEN d[i].dev ELSE Urls(d[i])])
      got == Loose(o, [i \in DOMAIN ts |-> Urls(ts[i])])
      part(i) == \E j \in DOMAIN d : LET w == Loose(o, <<Urls(d[j])>>)[1] IN Len(got[i]) <= Len(w) /\ got[i] = SubSeq(w, 1, Len(got[i]))
  IN (IF SameBag(got, want) THEN {}
      \* a lost connection ends a test
      ELSE IF Len(got) = Len(want) /\ (\E i \in DOMAIN ts : Cut(ts[i])) /\ \A i \in DOMAIN ts : part(i) /\ (Cut(ts[i]) \/ \E j \in DOMAIN want : want[j] = got[i]) THEN {} ELSE IF SameBag(got, known) THEN Bad("C19", "cursor-unused: " \o o) ELSE Bad("C19", "positive tests of " \o o))
     \cup UNION {LET D == Defs(ts[i], d)
                     ok == \E j \in D : LET v == LevelTest(d[j], Ans(ts[i])) IN v >= Open \/ v = ts[i].l
                 IN IF D # {} /\ ~ok THEN Bad("C19", "level " \o ToString(ts[i].l) \o " of test of " \o o \o ": " \o Joined(ts[i])) ELSE {}
                 : i \in DOMAIN ts}
FailedIn(ts) == Cardinality({i \in DOMAIN ts : ts[i].l >= 2})
LevelsOf(ts) == MaxOf([i \in DOMAIN ts |-> ts[i].l])
JudgeOp(op, e, w) ==
  LET d == Tests(e, w)
  IN IF op.o # e.o THEN Bad("C17", "operation " \o op.o \o " instead of " \o e.o)
     ELSE IF Len(op.setup) # 1 THEN Bad("C20", "no setup of " \o op.o)
     ELSE JudgeSetup(op.setup[1], e)
          \cup (IF op.setup[1].l >= 2 /\ op.ran THEN Bad("C20", op.o \o " was tested although setting up failed") ELSE {})
          \cup (IF op.setup[1].l < 2 /\ ~op.ran THEN Bad("C20", op.o \o " was not tested") ELSE {})
          \cup (IF op.ran THEN JudgeNeg(op.neg, d.neg, op.o) \cup JudgePos(op.pos, d.pos, op.o) ELSE {})
          \cup (IF op.l # Max2(op.setup[1].l, Max2(LevelsOf(op.neg), LevelsOf(op.pos))) THEN Bad("C20", "level of " \o op.o) ELSE {})
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Tally(ops) ==
  LET nf == Sum([i \in DOMAIN ops |-> FailedIn(ops[i].neg)])
      na == Sum([i \in DOMAIN ops |-> Len(ops[i].neg)])
      pf == Sum([i \in DOMAIN ops |-> FailedIn(ops[i].pos)])
      pa == Sum([i \in DOMAIN ops |-> Len(ops[i].pos)])
  IN [mat |-> <<na - nf, nf, pa - pf, pf>>, summary |-> <<<<na - nf, na>>, <<pa - pf, pa>>>>]
Escaped(x) == LET q == x.reqs[Len(x.reqs)].c IN q \in Lost \/ q = "empty"
Judge(x) ==
  LET sel == Selected(x.has, x.f, x.pr)
  IN IF x.st # "ok" THEN (IF x.st = "raised" /\ Len(x.reqs) > 1 /\ Escaped(x) THEN Bad("C20", "unguarded-fault") ELSE Bad("C20", "no result"))
     ELSE (IF Len(x.ops) # Len(sel) THEN Bad("C17", "number of operations") ELSE UNION {JudgeOp(x.ops[i], sel[i], x.w) : i \in DOMAIN x.ops})
          \cup (IF x.mat # Tally(x.ops).mat THEN Bad("C20", "tally") ELSE {})
          \cup (IF x.summary # Tally(x.ops).summary THEN Bad("C20", "summary") ELSE {})
          \cup (IF x.l # LevelsOf(x.ops) \/ x.ok # (x.l < 2) THEN Bad("C20", "overall result") ELSE {})
          \cup (IF x.left # 0 THEN Bad("C17", "requests outside the operations") ELSE {})
Judge1 == CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> Judge(Trace[l])])>>, IOEnv.OUT)
=============================================================================
