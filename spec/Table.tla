-------------------------------- MODULE Table -------------------------------
(* Exports the class table, so that the drivers need no knowledge of their  *)
(* own about the metamodel.                                                 *)
EXTENDS Emit

VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
Spec == Init /\ [][Next]_done
Table == [attrs |-> [c \in Classes |-> [a \in AttrNames[c] |-> [ty |-> Attrs[c][a].ty, req |-> Attrs[c][a].req]]],
          literals |-> Literals, elements |-> Elements, data |-> DataElements, identifiables |-> Identifiables,
          abstract |-> [c \in Abstract |-> Subclasses(c)], lang |-> LangMax, min |-> MinOf, max |-> MaxOf, bounds |-> StrBounds, typed |-> NeedsModelType]
EmitAll == done => WriteCase(Table)
=============================================================================
