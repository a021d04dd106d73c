-------------------------------- MODULE Scope -------------------------------
(* C14: nested result scopes as a state machine.  A program enters scopes   *)
(* (guarded or not), writes, aborts, fails with a foreign error or an       *)
(* interrupt, and leaves.                                                   *)
EXTENDS Res

(* A frame is [g |-> guarded?, id, own, s |-> what was recorded so far].     *)
(* Recorded nodes carry a kind: "w" written, "a" abort, "x" foreign error,  *)
(* "s" scope.                                                               *)
Rec(k, id, own, s) == [k |-> k, id |-> id, own |-> own, s |-> s]
\* The state of the machine: open scopes (innermost last), finished outermost scopes in order, and what happened outside
\* of all scopes: "refused", "aborted", "escaped", "interrupted"
Start == [frames |-> <<>>, done |-> <<>>, out |-> <<>>]
Put(F, r) == [F EXCEPT ![Len(F)].s = Append(@, r)]
\* The innermost scope of F ends normally
Closed(F) == LET f == F[Len(F)] IN Rec("s", f.id, f.own, f.s)
Pop(F) == SubSeq(F, 1, Len(F) - 1)
\* The innermost scope of F ends and is recorded with its enclosing one
End(st, F) == IF Len(F) = 1 THEN [st EXCEPT !.frames = <<>>, !.done = Append(@, Closed(F))]
              ELSE [st EXCEPT !.frames = Put(Pop(F), Closed(F))]
Outside(st, x) == [st EXCEPT !.out = Append(@, x)]

Enter(st, id, g, own) == [st EXCEPT !.frames = Append(@, [g |-> g, id |-> id, own |-> own, s |-> <<>>])]
Leave(st) == End(st, st.frames)
Write(st, id, l) == IF st.frames = <<>> THEN Outside(st, "refused") ELSE [st EXCEPT !.frames = Put(@, Rec("w", id, l, <<>>))]
Abort(st, id, l) == IF st.frames = <<>> THEN Outside(st, "aborted") ELSE End(st, Put(st.frames, Rec("a", id, l, <<>>)))
\* A foreign error ends scopes up to and including the innermost guarded one
Foreign(st, id) ==
  LET G == {i \in DOMAIN st.frames : st.frames[i].g}
  IN IF G = {} THEN Outside([st EXCEPT !.frames = <<>>], "escaped")
     ELSE LET i == CHOOSE i \in G : \A j \in G : j <= i
          IN End(st, Put(SubSeq(st.frames, 1, i), Rec("x", id, 3, <<>>)))
\* An interrupt is nobody's business
Interrupt(st) == Outside([st EXCEPT !.frames = <<>>], "interrupted")

\* One step of a program
Do(st, id, op) == CASE op.o = "enter" -> Enter(st, id, op.g, op.l)
                    [] op.o = "leave" -> Leave(st)
                    [] op.o = "write" -> Write(st, id, op.l)
                    [] op.o = "abort" -> Abort(st, id, op.l)
                    [] op.o = "raise" -> Foreign(st, id)
                    [] op.o = "interrupt" -> Interrupt(st)
Op1(o, g, l) == [o |-> o, g |-> g, l |-> l]
=============================================================================
