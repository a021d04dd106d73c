------------------------------- MODULE XmlText ------------------------------
(* C11: XML texts, token by token.  The state is the text read so far, the  *)
(* elements which are open and what became of the root element.             *)
EXTENDS Xml

\* Tokens.  Elements e (environment), s (submodels), m (submodel), i (id) are in the expected namespace.
Names == [e |-> "environment", s |-> "submodels", m |-> "submodel", i |-> "id"]
Starts == {"<e>", "<s>", "<m>", "<i>"}
Ends == {"</e>", "</s>", "</m>", "</i>"}
Nm(t) == CASE t \in {"<e>", "</e>", "<e/>"} -> "environment" [] t \in {"<s>", "</s>", "<s/>"} -> "submodels" [] t \in {"<m>", "</m>"} -> "submodel" [] t \in {"<i>", "</i>"} -> "id"
Empties == {"<e/>", "<s/>"}
Chars1 == {"t", " ", "&amp;", "<![CDATA[t]]>"}
Misc == {"<!--c-->", "<?p?>"}
\* never well-formed, wherever they stand
Wrongs == {"&u;", "<", "]]>", "<a b=\"1\" b=\"2\"/>", "<a b=1/>", "<p:a/>", "<!--c--c-->", "{0}", "&#0;", "<a><b></a></b>", "</>", "<a", "<?xml?>"}
Decl == "<?xml version=\"1.0\"?>"
All == Starts \cup Ends \cup Empties \cup Chars1 \cup Misc \cup Wrongs \cup {Decl}
TextOf(t) == CASE t = "&amp;" -> "&" [] t = "<![CDATA[t]]>" -> "t" [] OTHER -> t

\* toks: tokens so far; open: stack of elements being read; root: the root element, or <<>>; wf: FALSE once the text cannot become well-formed any more
VARIABLES toks, open, root, wf
vars == <<toks, open, root, wf>>
Top == open[Len(open)]
\* text goes before the first child or behind the last one
AddText(e, x) == IF e.c = <<>> THEN [e EXCEPT !.x = @ \o x] ELSE [e EXCEPT !.c[Len(e.c)].tl = @ \o x]
AddChild(e, c) == [e EXCEPT !.c = Append(@, c)]
Close(st) == IF Len(st) = 1 THEN <<>> ELSE SubSeq(st, 1, Len(st) - 2) \o <<AddChild(st[Len(st) - 1], st[Len(st)])>>

Init == toks = <<>> /\ open = <<>> /\ root = <<>> /\ wf = TRUE
New(t) == Elt(Nm(t), "odd", "", <<>>)
Read1(t) ==
  CASE t \in Wrongs -> UNCHANGED <<open, root>> /\ wf' = FALSE
    [] t = Decl -> UNCHANGED <<open, root>> /\ wf' = (wf /\ toks = <<>>)
    [] t \in Misc -> UNCHANGED <<open, root, wf>>
    [] t \in Chars1 -> IF open = <<>> THEN UNCHANGED <<open, root>> /\ wf' = (wf /\ t = " ")
                       ELSE open' = [open EXCEPT ![Len(open)] = AddText(@, TextOf(t))] /\ UNCHANGED <<root, wf>>
    [] t \in Starts -> open' = Append(open, New(t)) /\ UNCHANGED root /\ wf' = (wf /\ (open = <<>> => root = <<>>))
    [] t \in Empties -> IF open = <<>> THEN root' = <<New(t)>> /\ UNCHANGED open /\ wf' = (wf /\ root = <<>>)
                        ELSE open' = [open EXCEPT ![Len(open)] = AddChild(@, New(t))] /\ UNCHANGED <<root, wf>>
    [] t \in Ends -> IF open = <<>> \/ Top.g # Nm(t) THEN UNCHANGED <<open, root>> /\ wf' = FALSE
                     ELSE open' = Close(open) /\ UNCHANGED wf /\ root' = IF Len(open) = 1 THEN <<Top>> ELSE root
\* Texts which are lost are extended by one token only
Width == IF Thorough THEN 5 ELSE 4
Hope == wf \/ Len(toks) <= 1
\* whole beginnings, so that deeper texts are reached
Starters == {<<>>, <<"<e>", "<s>">>, <<Decl, "<e>", "<s>", "<m>">>, <<"<e>", "<s>", "<m>", "<i>", "t">>, <<"<e>", "<s>", "<m>", "<i>", "t", "</i>", "</m>">>, <<" ">>}
RECURSIVE Run(_, _)
Run(st, ts) == IF ts = <<>> THEN st
               ELSE LET t == Head(ts)
                        nx == IF t \in Starts THEN Append(st, New(t)) ELSE IF t \in Ends THEN Close(st) ELSE IF t = Decl \/ (st = <<>> /\ t = " ") THEN st ELSE [st EXCEPT ![Len(st)] = AddText(@, TextOf(t))]
                    IN Run(nx, Tail(ts))
VARIABLE from
InitX == \E s \in Starters : from = Len(s) /\ toks = s /\ open = Run(<<>>, s) /\ root = <<>> /\ wf = TRUE
Idx1 == [t \in All |-> Len(ToString(t))]
NextX == /\ Len(toks) - from < Width /\ Hope
         /\ \E t \in All : (Len(toks) = from => Ours(Len(t) + from + (IF t \in Wrongs THEN 1 ELSE 0))) /\ Read1(t) /\ toks' = Append(toks, t)
         /\ UNCHANGED from
\* Lost texts are rounded off as well: no later token mends them
ClosingOf(g) == CASE g = "environment" -> "</e>" [] g = "submodels" -> "</s>" [] g = "submodel" -> "</m>" [] g = "id" -> "</i>"
Closing == IF open = <<>> THEN (IF root = <<>> THEN <<"<e/>">> ELSE <<>>) ELSE [i \in 1..Len(open) |-> ClosingOf(open[Len(open) + 1 - i].g)]
RoundOff == /\ ~wf /\ Len(toks) - from <= 2 /\ Closing # <<>>
            /\ toks' = toks \o Closing /\ open' = <<>> /\ root' = <<Elt("environment", "odd", "", <<>>)>> /\ UNCHANGED <<wf, from>>
SpecX == InitX /\ [][NextX \/ RoundOff]_<<vars, from>>

Complete == wf /\ open = <<>> /\ root # <<>>
RECURSIVE Cat1(_, _)
Cat1(ts, i) == IF i > Len(ts) THEN "" ELSE ts[i] \o Cat1(ts, i + 1)
\* a space before the declaration: no declaration any more
EmitAll == IF Complete
           THEN LET v == XVerdict("Environment", root[1])
                IN WriteCase([w |-> toks, s |-> "ok", x |-> root[1], bad |-> v.bad, r |-> v.r, k |-> v.k, dev |-> v.dev])
           ELSE WriteCase([w |-> toks, s |-> "bad"])
=============================================================================
