------------------------------- MODULE DomSteps -------------------------------
(***************************************************************************)
(* What each kind of operation guarantees, stated on the state before (S)  *)
(* and after (T) without saying how it is done: the action properties of   *)
(* the model. c is Apply(S, e).                                            *)
(***************************************************************************)
EXTENDS DomProps

Failed(c) == \E r \in c.R : r.k = "err"
Panicked(c) == RPanic \in c.R
Same(S, T, N) == \A n \in N : S[n] = T[n]
Old(S) == 1..Len(S)

(* C04: an operation which fails changes nothing. *)
AtomicOk(S, e, c) == (Failed(c) \/ Panicked(c)) => c.S = S

(* C03: the child is where it was asked to be, the others keep their       *)
(* order, and nothing else moves.                                          *)
Bare(x) == [x EXCEPT !.par = 0, !.kids = <<>>, !.doc = 0]
OthersKeepOrder(S, T, child, gone) ==
    \A p \in Old(S) : SelectSeq(T[p].kids, LAMBDA k : k # child) =
                      SelectSeq(S[p].kids, LAMBDA k : k \notin {child, gone})
PlacementOk(S, e, c) ==
    (e.op \in TreeOps /\ ~Failed(c)) =>
        LET T == c.S  p == e.n[1]  x == e.n[2]
            gone == CASE e.op = "remove_child" -> x
                      [] e.op = "replace_child" /\ e.n[3] # x -> e.n[3]
                      [] OTHER -> 0
        IN /\ Len(T) = Len(S)
           /\ \A n \in Old(S) : Bare(T[n]) = Bare(S[n])
           /\ OthersKeepOrder(S, T, x, gone)
           /\ \A n \in Old(S) \ {x, gone} : T[n].par = S[n].par /\ T[n].doc = S[n].doc
           /\ gone # 0 => T[gone].par = 0 /\ T[gone].doc = S[gone].doc /\ T[gone].kids = Without(S[gone].kids, x)
           /\ e.op # "remove_child" =>
                 /\ T[x].par = p
                 /\ Cardinality({q \in Old(S) : Has(T[q].kids, x)}) = 1
           /\ CASE e.op = "append_child" -> T[p].kids[Len(T[p].kids)] = x
                [] e.op = "insert_before" ->
                     IF e.n[3] = 0 THEN T[p].kids[Len(T[p].kids)] = x
                     ELSE IF e.n[3] = x THEN T = S
                     ELSE NextSib(T, x) = e.n[3]
                [] e.op = "replace_child" ->
                     IF e.n[3] = x THEN T = S
                     ELSE LET q == SelectSeq(S[p].kids, LAMBDA k : k # x)  i == Pos(q, e.n[3])
                          IN SubSeq(T[p].kids, 1, i) = SubSeq(q, 1, i - 1) \o <<x>>
                [] OTHER -> TRUE

(* C06: setting an attribute by name gives the element exactly that        *)
(* attribute of the name, removing it leaves none; others are untouched.   *)
AttrStepOk(S, e, c) ==
    (e.op \in ElemWriteOps /\ ~Failed(c) /\ ~Panicked(c)) =>
        LET T == c.S  el == e.n[1]
            hit(n, x) ==      \* is x what the operation names?
                CASE e.op \in {"set_attribute_node", "set_attribute_node_ns"} -> SameAttr(x, T[e.n[2]])
                  [] e.op = "remove_attribute_node" -> n = e.n[2]
                  [] e.op \in {"set_attribute", "remove_attribute"} -> QName(x.pf, x.ln) = e.s[1][1]
                  [] OTHER -> \/ x.ns = e.s[1] /\ x.ln = ParseName(e.s[2][1]).ln
                              \/ e.op = "set_attribute_ns" /\ QName(x.pf, x.ln) = e.s[2][1]
            kept == {a \in S[el].attrs : ~hit(a, S[a])}
        IN /\ {a \in T[el].attrs : ~hit(a, T[a])} = kept
           /\ \A a \in kept : T[a] = S[a]
           /\ Cardinality({a \in T[el].attrs : hit(a, T[a])}) =
                 (IF e.op \in {"remove_attribute", "remove_attribute_ns", "remove_attribute_node"} THEN 0 ELSE 1)
           /\ \A a \in S[el].attrs \ T[el].attrs : T[a].own = 0
           /\ \A n \in Old(S) \ ({el} \cup S[el].attrs \cup T[el].attrs) :
                 [T[n] EXCEPT !.ids = {}] = [S[n] EXCEPT !.ids = {}]

(* C09: an edit of character data is an edit of one string. *)
BytesBefore(s, k) == ByteLen(SubSeq(s, 1, k))
CharStepOk(S, e, c) ==
    (e.op \in {"append_data", "insert_data", "delete_data", "replace_data"} /\ ~Failed(c)) =>
        LET n == e.n[1]  s == DataOf(S, n)  t == DataOf(c.S, n)
            new == IF e.op = "delete_data" THEN <<>> ELSE e.s[1][1]
            off == IF e.op = "append_data" THEN ByteLen(s) ELSE e.i[1]
            cnt == CASE e.op \in {"delete_data", "replace_data"} -> e.i[2] [] OTHER -> 0
        IN /\ \A k \in Old(S) \ {n} : c.S[k] = S[k]
           /\ \E a \in 0..Len(s), b \in 0..Len(s) :
                 /\ a <= b /\ BytesBefore(s, a) = off
                 /\ (IF cnt = -1 \/ off + cnt > ByteLen(s) THEN b = Len(s) ELSE BytesBefore(s, b) = off + cnt)
                 /\ t = SubSeq(s, 1, a) \o new \o SubSeq(s, b + 1, Len(s))

(* C10: splitting keeps the text, in two adjacent nodes; normalizing keeps *)
(* the text, and leaves no empty and no adjacent text nodes.               *)
RECURSIVE Flat(_, _)
Flat(S, q) ==      \* children, with runs of text joined
    IF q = <<>> THEN <<>>
    ELSE LET r == Flat(S, Tail(q))  x == q[1] IN
         IF S[x].ty # "Text" THEN <<<<x>>>> \o r
         ELSE IF DataOf(S, x) = <<>> THEN r
         ELSE IF r # <<>> /\ Len(r[1]) = 2 THEN <<<<0, DataOf(S, x) \o r[1][2]>>>> \o Tail(r)
         ELSE <<<<0, DataOf(S, x)>>>> \o r
RECURSIVE Reach(_, _)
Reach(S, n) == {n} \cup UNION {Reach(S, k) : k \in Elems(S[n].kids) \cup S[n].attrs}
SplitOk(S, e, c) ==
    (e.op = "split" /\ ~Failed(c)) =>
        LET T == c.S  n == e.n[1]  m == Len(S) + 1 IN
        /\ Len(T) = m /\ T[m].ty = S[n].ty /\ T[m].doc = S[n].doc
        /\ DataOf(T, n) \o DataOf(T, m) = DataOf(S, n)
        /\ S[n].par # 0 => NextSib(T, n) = m /\ NextSib(T, m) = NextSib(S, n)
        /\ \A k \in Old(S) \ {n, S[n].par} : T[k] = S[k]
NormalOk(S, e, c) ==
    e.op = "normalize" =>
        LET T == c.S  R == Reach(S, e.n[1]) IN
        /\ Len(T) = Len(S)
        /\ \A k \in Reach(T, e.n[1]) :
              /\ Flat(T, T[k].kids) = Flat(S, S[k].kids)
              /\ \A i \in 1..Len(T[k].kids) :
                    Is(T, T[k].kids[i], "Text") =>
                        /\ DataOf(T, T[k].kids[i]) # <<>>
                        /\ i > 1 => ~Is(T, T[k].kids[i - 1], "Text")
        /\ \A k \in Old(S) \ R : T[k] = S[k]
        /\ \A k \in R : ~Is(S, k, "Text") => k \in Reach(T, e.n[1])

RECURSIVE Above(_, _)
Above(S, n) == IF n = 0 THEN {} ELSE {n} \cup Above(S, S[n].par)
(* C11: a clone looks the same, is separate, and changes nothing. *)
RECURSIVE Alike(_, _, _, _)
Alike(T, a, b, deep) ==
    /\ LET Look(n) == [Bare(T[n]) EXCEPT !.own = 0, !.attrs = {}, !.copied = FALSE, !.doc = 0, !.dt = 0, !.ids = {}]
       IN Look(a) = Look(b)
    /\ Cardinality(T[a].attrs) = Cardinality(T[b].attrs)
    /\ \A x \in T[a].attrs : \E y \in T[b].attrs : Alike(T, x, y, TRUE)
    /\ IF deep \/ Is(T, a, "Attribute")
       THEN /\ Len(T[a].kids) = Len(T[b].kids)
            /\ \A i \in 1..Len(T[a].kids) : Alike(T, T[a].kids[i], T[b].kids[i], deep)
       ELSE T[b].kids = <<>>
CloneOk(S, e, c) ==
    e.op = "clone_node" =>
        LET T == c.S  n == e.n[1]  m == Len(S) + 1 IN
        /\ Same(S, T, Old(S))
        /\ T[m].par = 0 /\ T[m].own = 0
        /\ Alike(T, n, m, e.i[1] = 1)
        /\ Reach(T, m) = (m..Len(T)) \ {T[m].dt}
        /\ IF Is(S, n, "Document")
           THEN /\ \A k \in m + 1..Len(T) : T[k].doc = m
                /\ (T[m].dt = 0) = (S[n].dt = 0)
                /\ T[m].dt # 0 => T[m].dt \in m + 1..Len(T) /\ Alike(T, S[n].dt, T[m].dt, TRUE)
                /\ \A x \in T[m].ids : x[2] \in Reach(T, m)
                /\ {x[1] : x \in T[m].ids} = (IF e.i[1] = 1 THEN {x[1] : x \in {y \in S[n].ids : n \in Above(S, y[2])}} ELSE {})
           ELSE \A k \in Reach(T, m) : T[k].doc = S[n].doc

(* Reading changes nothing. *)
ReadOnly == ElemReadOps \cup ElemFindOps \cup NsOps \cup DocFindOps \cup PureOps
            \cup {"substring_data", "is_supported", "has_feature", "to_string", "debug", "casts", "views"}
ReadOk(S, e, c) == e.op \in ReadOnly => c.S = S

(* C16: a method of an interface which the node does not have changes at    *)
(* most what it would have changed as a method of a node.                   *)
KindStepOk(S, e, c) ==
    IsDirect(e.op) => LET op == Method(e.op) IN
        S[e.n[1]].ty \notin Needs(op) =>
            CASE op \in {"set_data", "pi_set_data"} -> c = Apply(S, [e EXCEPT !.op = "set_node_value"])
              [] op \in {"unset_data", "pi_unset_data"} -> c = Apply(S, [e EXCEPT !.op = "unset_node_value"])
              [] op \in {"create_comment", "create_text_node"} -> Len(c.S) = Len(S) + 1 /\ SubSeq(c.S, 1, Len(S)) = S
              [] op \in {"set_value", "unset_value", "split"} \cup DocCreateOps -> c.S = S /\ Failed(c)
              [] OTHER -> c.S = S

(* C12: exactly the elements at or below, that match, in document order.   *)
RECURSIVE DepthOf(_, _)
DepthOf(S, n) == IF S[n].par = 0 THEN 0 ELSE 1 + DepthOf(S, S[n].par)
RECURSIVE PathTo(_, _)
PathTo(S, n) == IF S[n].par = 0 THEN <<>> ELSE Append(PathTo(S, S[n].par), Pos(S[S[n].par].kids, n))
FindOk(S, e, c) ==
    e.op \in {"elem_by_tag", "doc_by_tag"} =>
        LET r == CHOOSE x \in c.R : TRUE
            top == IF e.op = "doc_by_tag" THEN RootElement(S, e.n[1]) ELSE e.n[1]
        IN r.k = "nodes" =>
             /\ Elems(r.n) = {x \in Old(S) : S[x].ty = "Element" /\ top \in Above(S, x)
                                 /\ (e.s[1][1] = STAR \/ QN(S, x) = e.s[1][1])
                                 /\ \A a \in Above(S, x) \ Above(S, top) : S[a].ty = "Element"}
             /\ \A i \in 1..Len(r.n) - 1 : StrLess(PathTo(S, r.n[i]), PathTo(S, r.n[i + 1]))

(* C14: the text that is given is one of the texts that are right. *)
SerStepOk(S, e, c) ==
    (c.m = "ser") => \A r \in c.R : SerOk(S, e.n[1], r.s[1][1])

(* C20: only the node that is let go of is gone; what it held keeps        *)
(* everything but the link to it.                                          *)
LifeStepOk(S, e, c) ==
    e.op = "release" =>
        LET T == c.S  n == e.n[1] IN
        /\ Len(T) = Len(S)
        /\ IF HeldByNode(S, n) THEN T = S ELSE T[n] = Gone
        /\ \A k \in Old(S) \ {n} :
              /\ [T[k] EXCEPT !.par = 0, !.own = 0, !.ids = {}] = [S[k] EXCEPT !.par = 0, !.own = 0, !.ids = {}]
              /\ T[k].par = (IF S[k].par = n THEN 0 ELSE S[k].par) /\ T[k].own = (IF S[k].own = n THEN 0 ELSE S[k].own)

StepOk(S, e, c) ==
    /\ AtomicOk(S, e, c) /\ PlacementOk(S, e, c) /\ AttrStepOk(S, e, c) /\ CharStepOk(S, e, c)
    /\ SplitOk(S, e, c) /\ NormalOk(S, e, c) /\ CloneOk(S, e, c) /\ ReadOk(S, e, c)
    /\ FindOk(S, e, c) /\ SerStepOk(S, e, c) /\ ParseStepOk(S, e, c) /\ LifeStepOk(S, e, c)
    /\ KindStepOk(S, e, c)
=============================================================================
