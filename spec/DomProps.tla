------------------------------- MODULE DomProps -------------------------------
(***************************************************************************)
(* The properties, as predicates on what can be observed: O is a sequence  *)
(* of projections (Dom!Proj), one for each node. They are invariants of    *)
(* the model (DomMC), and they are evaluated on what the implementation    *)
(* shows (DomTrace).                                                       *)
(***************************************************************************)
EXTENDS Sweep

Observe(S, pr) == [n \in 1..Len(S) |-> Proj(S, n, pr)]
Nodes(O) == 1..Len(O)
NoDup(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j

(* C01: parents, children and siblings agree.                              *)
LinkOk(O, n) ==
    LET x == O[n]  q == x.kids  p == x.par IN
    /\ NoDup(q)
    /\ \A i \in 1..Len(q) : q[i] \in Nodes(O) /\ O[q[i]].par = n
    /\ x.first = (IF q = <<>> THEN 0 ELSE q[1])
    /\ x.last = (IF q = <<>> THEN 0 ELSE q[Len(q)])
    /\ x.hk = (IF q = <<>> THEN 0 ELSE 1)
    /\ IF p = 0 THEN x.prev = 0 /\ x.next = 0
       ELSE /\ p \in Nodes(O) /\ Has(O[p].kids, n)
            /\ LET k == O[p].kids  i == Pos(k, n) IN
               /\ x.prev = (IF i > 1 THEN k[i - 1] ELSE 0)
               /\ x.next = (IF i < Len(k) THEN k[i + 1] ELSE 0)
    /\ x.ty \in {"Attribute", "Document", "DocumentFragment", "DocumentType", "Entity", "Notation"} => p = 0
Links(O) == \A n \in Nodes(O) : LinkOk(O, n)

(* C02: only what may be a child is a child, a document has at most one    *)
(* root element, and no node is above itself.                              *)
RECURSIVE Climb(_, _, _)
Climb(O, n, steps) ==      \* is the top reached?
    IF n \notin Nodes(O) THEN TRUE ELSE IF steps = 0 THEN FALSE
    ELSE Climb(O, IF O[n].ty = "Attribute" THEN O[n].own ELSE O[n].par, steps - 1)
RootsOf(O, d) == SelectSeq(O[d].kids, LAMBDA k : k \in Nodes(O) /\ O[k].ty = "Element")
ContentOk(O, n) ==
    /\ \A i \in 1..Len(O[n].kids) : O[n].kids[i] \in Nodes(O) => O[O[n].kids[i]].ty \in AllowedKids(O[n].ty)
    /\ O[n].ty = "Document" =>
          /\ Len(RootsOf(O, n)) <= 1
          /\ O[n].de = (IF RootsOf(O, n) = <<>> THEN 0 ELSE RootsOf(O, n)[1])
    /\ Climb(O, n, Len(O) + 1)
Content_(O) == \A n \in Nodes(O) : ContentOk(O, n)

(* Is there a node (maybe a document) that nothing holds any more?         *)
AnyGone(O) == \E n \in Nodes(O) : O[n].ty = "Gone"

(* C05: a tree, with its attributes, belongs to one document.              *)
OwnerOk(O, n) ==
    LET d == IF O[n].ty = "Document" THEN n ELSE O[n].doc
        under == Elems(O[n].kids) \cup O[n].attrs
    IN /\ O[n].ty = "Document" => O[n].doc = 0
       /\ O[n].doc # 0 => O[n].doc \in Nodes(O) /\ O[O[n].doc].ty = "Document"
       /\ O[n].ty \notin {"Document", "DocumentType", "Gone"} => O[n].doc # 0 \/ AnyGone(O)
       /\ d # 0 => \A k \in under \cap Nodes(O) : O[k].doc = d
       /\ O[n].dt # 0 => O[n].dt \in Nodes(O) /\ O[O[n].dt].doc = n
Owners(O) == \A n \in Nodes(O) : OwnerOk(O, n)

(* C06: an element has one attribute of a name, and it owns them.          *)
AttrsOk(O, n) ==
    LET x == O[n] IN
    /\ x.attrs # {} => x.ty = "Element"
    /\ \A a \in x.attrs : a \in Nodes(O) /\ O[a].ty = "Attribute" /\ O[a].own = n /\ O[a].spec = 1
    /\ \A a, b \in x.attrs \cap Nodes(O) : a # b => ~SameAttr(O[a], O[b])
    /\ x.own # 0 => x.ty = "Attribute" /\ x.own \in Nodes(O) /\ n \in O[x.own].attrs
    /\ x.ha = (IF x.attrs = {} THEN 0 ELSE 1)
    /\ x.ak = 1
Attrs(O) == \A n \in Nodes(O) : AttrsOk(O, n)

(* C15: an attribute's value is the normalized, escaped text of its        *)
(* children.                                                               *)
RECURSIVE RawO(_, _, _)
RawO(O, q, acc) ==
    IF q = <<>> THEN acc
    ELSE RawO(O, Tail(q),
              IF q[1] \in Nodes(O) /\ O[q[1]].ty \in {"Text", "EntityReference"} /\ O[q[1]].val # None
              THEN acc \o O[q[1]].val[1] ELSE acc)
ValueOk(O, n) ==
    O[n].ty = "Attribute" =>
        LET v == IF O[n].kids = <<>> THEN None ELSE Some(AttrText(RawO(O, O[n].kids, <<>>)))
        IN IsPanic(v) \/ O[n].val = v
Values(O) == \A n \in Nodes(O) : ValueOk(O, n)

(* C07: looking up an ID finds an element with that ID, if there is one    *)
(* which did not get it as the copy of another.                            *)
IdAttrsOf(O, el, lax, v) ==
    {a \in O[el].attrs \cap Nodes(O) : IsIdName(O[a], lax) /\ O[a].val = Some(v)}
IdsOk(S, O, n, pr) ==
    O[n].ty = "Document" =>
        LET lax == "id" \in S[n].opt IN
        \A i \in 1..Len(O[n].ids) :
            LET x == O[n].ids[i]
                H == {el \in Nodes(O) : O[el].doc = n /\ IdAttrsOf(O, el, lax, pr.id[i]) # {}}
            IN IF x = 0 THEN \A el \in H : \A a \in IdAttrsOf(O, el, lax, pr.id[i]) : a <= Len(S) /\ S[a].copied
               ELSE x \in H
Ids(S, O, pr) == \A n \in Nodes(O) : IdsOk(S, O, n, pr)

(* C08: an element's namespace mappings are its xmlns attributes; the      *)
(* nearest mapping of an ancestor-or-self wins.                            *)
NsActive(S, O, n) == O[n].ty = "Element" /\ O[n].doc # 0 /\ O[n].doc <= Len(S) /\ "ns" \in S[O[n].doc].opt
Declares(O, el, pf) ==
    {a \in O[el].attrs \cap Nodes(O) : IsNsName(O[a]) /\ DeclaredPrefix(O[a]) = pf /\ O[a].val # None}
MappingOk(S, O, n, pr) ==
    O[n].ty = "Element" =>
        \A i \in 1..Len(O[n].nsp) :
            LET D == Declares(O, n, pr.pf[i])
            IN IF NsActive(S, O, n) /\ D # {} THEN \E a \in D : O[n].nsp[i] = O[a].val
               ELSE O[n].nsp[i] = None
RECURSIVE Nearest(_, _, _, _, _)
Nearest(S, O, n, i, steps) ==
    IF n \notin Nodes(O) \/ steps = 0 THEN None
    ELSE IF O[n].ty = "Element" /\ O[n].nsp[i] # None THEN O[n].nsp[i]
    ELSE IF O[n].doc = 0 \/ O[n].doc > Len(S) THEN None
    ELSE IF "ns" \notin S[O[n].doc].opt THEN None
    ELSE Nearest(S, O, O[n].par, i, steps - 1)
ResolveOk(S, O, n) ==
    O[n].ty = "Element" => \A i \in 1..Len(O[n].nsr) : O[n].nsr[i] = Nearest(S, O, n, i, Len(O) + 1)
(* A prefix that is found for a namespace is one that is mapped to it, and *)
(* one is found if there is one.                                           *)
PrefixOk(S, O, n, pr) ==
    O[n].ty = "Element" =>
        \A i \in 1..Len(O[n].upf) :
            LET D == {DeclaredPrefix(O[a]) : a \in {b \in O[n].attrs \cap Nodes(O) :
                                                    IsNsName(O[b]) /\ O[b].val = Some(pr.uri[i])}}
            IN O[n].upf[i] # {} /\ O[n].upf[i] \subseteq PrefixCodes(IF NsActive(S, O, n) THEN D ELSE {})
Mappings(S, O, pr) ==
    \A n \in Nodes(O) : MappingOk(S, O, n, pr) /\ ResolveOk(S, O, n) /\ PrefixOk(S, O, n, pr)

(* C09: a length is the number of bytes of the data, and data is shown     *)
(* escaped for text and comments only.                                     *)
DataOk(O, n) ==
    LET x == O[n] IN
    CASE x.ty \in {"Text", "Comment"} ->
           /\ x.data = (IF x.val = None THEN None ELSE Some(Escape(x.val[1])))
           /\ x.len = (IF x.val = None THEN 0 ELSE ByteLen(x.val[1]))
      [] x.ty = "CData" ->
           /\ x.data = x.val
           /\ x.len = (IF x.val = None THEN 0 ELSE ByteLen(x.val[1]))
      [] OTHER -> TRUE
Datas(O) == \A n \in Nodes(O) : DataOk(O, n)

(* C13: names are well formed and consistent.                              *)
NameOkO(O, n) ==
    LET x == O[n] IN
    /\ x.qn = QName(x.pf, x.ln)
    /\ x.ty \in {"Element", "Attribute", "EntityReference", "Entity", "ProcessingInstruction",
                 "DocumentType", "Notation"} =>
          /\ IsNCName(x.ln) /\ (x.pf # None => IsNCName(x.pf[1]))
          /\ x.ns # None => ParseNameNs(x.ns[1], x.qn).ok
Names(O) == \A n \in Nodes(O) : NameOkO(O, n)

(* C16: the table of DOM Level 2: the name, the value and the attributes   *)
(* of each type of node.                                                   *)
KindOk(O, n) ==
    LET x == O[n] IN
    /\ x.ty \in Types \cup {"Gone"}
    /\ x.ty = "Text" => x.qn = Cp("#text")
    /\ x.ty = "CData" => x.qn = Cp("#cdata-section")
    /\ x.ty = "Comment" => x.qn = Cp("#comment")
    /\ x.ty = "Document" => x.qn = Cp("#document")
    /\ x.ty = "DocumentFragment" => x.qn = Cp("#document-fragment")
    /\ x.ty \in {"Document", "DocumentFragment", "DocumentType", "Element", "Notation"} => x.val = None
    /\ x.ty # "Element" => x.attrs = {} /\ x.ha = 0
    /\ x.ty # "Attribute" => x.own = 0
    /\ x.ty = "ProcessingInstruction" =>
          x.data = x.val /\ x.len = (IF x.val = None THEN 0 ELSE ByteLen(x.val[1]))
    /\ x.ty \notin {"Text", "CData", "Comment", "ProcessingInstruction"} => x.data = None /\ x.len = 0
Kinds(O) == \A n \in Nodes(O) : KindOk(O, n)

(* C17: a document type belongs to the document that was created with it.  *)
DocsOk(O, n) ==
    LET x == O[n] IN
    /\ x.dt # 0 => x.ty = "Document" /\ x.dt \in Nodes(O) /\ O[x.dt].ty = "DocumentType"
    /\ x.decl # <<>> => x.ty = "Document" /\ x.decl[1][1] \in {Cp("1.0"), Cp("1.1")}
    /\ (x.pub # None \/ x.sys # None) => x.ty \in {"DocumentType", "Entity", "Notation"}
Docs(O) == \A n \in Nodes(O) : DocsOk(O, n)

(* C20: what is gone is linked with nothing.                               *)
LifeOk(O, n) ==
    LET x == O[n] IN
    /\ x.ty = "Gone" => x.kids = <<>> /\ x.attrs = {} /\ x.par = 0 /\ x.own = 0 /\ x.doc = 0 /\ x.dt = 0
    /\ \A k \in ({x.par, x.own, x.doc, x.dt, x.de, x.prev, x.next} \cup Elems(x.kids) \cup x.attrs \cup Elems(x.ids)) \ {0} :
          k \in Nodes(O) => O[k].ty # "Gone"
Lives(O) == AnyGone(O) => \A n \in Nodes(O) : LifeOk(O, n)

WellFormed(S, O, pr) ==
    /\ Links(O) /\ Content_(O) /\ Owners(O) /\ Attrs(O) /\ Values(O) /\ Ids(S, O, pr)
    /\ Mappings(S, O, pr) /\ Datas(O) /\ Names(O) /\ Kinds(O) /\ Docs(O) /\ Lives(O)

(* Which of them fail on what is observed.                                 *)
FailsOn(O) ==
    (IF Links(O) THEN {} ELSE {"C01"}) \cup (IF Content_(O) THEN {} ELSE {"C02"})
    \cup (IF Owners(O) THEN {} ELSE {"C05"}) \cup (IF Attrs(O) THEN {} ELSE {"C06"})
    \cup (IF Values(O) THEN {} ELSE {"C15"}) \cup (IF Datas(O) THEN {} ELSE {"C09"})
    \cup (IF Names(O) THEN {} ELSE {"C13"}) \cup (IF Kinds(O) THEN {} ELSE {"C16"})
    \cup (IF Docs(O) THEN {} ELSE {"C17"}) \cup (IF Lives(O) THEN {} ELSE {"C20"})
=============================================================================
