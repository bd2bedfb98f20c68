------------------------------- MODULE DomTrace -------------------------------
(***************************************************************************)
(* Are recorded histories of the implementation behaviours of Dom?         *)
(* Each trace is a list of operations with the result of each, and the     *)
(* projections of the nodes which it made or changed. The specification is *)
(* stepped along; where the implementation did something else, the step is *)
(* reported with the properties that it breaks, and what follows is judged *)
(* from what was observed.                                                 *)
(***************************************************************************)
EXTENDS DomProps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
(* The names of variables are found nowhere else: TLC would not evaluate   *)
(* constants in which they are bound only once.                            *)
VARIABLES vTrace, vStep, vState, vObs, vStop, vFails, vReports
vars == <<vTrace, vStep, vState, vObs, vStop, vFails, vReports>>

(* -------------------------------- blame -------------------------------- *)
(* What an operation is about. *)
Base(op) ==
    CASE op \in TreeOps -> {"C03"}
      [] op = "clone_node" -> {"C11"}
      [] op \in {"normalize", "split"} -> {"C10"}
      [] op \in {"set_node_value", "unset_node_value", "casts", "views", "pi_set_data", "pi_unset_data"} -> {"C16"}
      [] op \in {"is_supported", "has_feature", "options", "options_seq", "options_and", "options_or", "xml_version", "xml_decl", "set_xml_declaration",
                 "create_document", "create_document_with_options", "create_document_type"} -> {"C17"}
      [] op \in {"create_notation", "create_entity", "create_internal_entity"} -> {"C16"}
      [] op = "to_string" -> {"C14"}
      [] op \in {"set_value", "unset_value"} -> {"C06"}
      [] op \in CharOps -> {"C09"}
      [] op \in ElemReadOps \cup ElemWriteOps -> {"C06"}
      [] op \in {"elem_by_tag", "elem_by_tag_ns", "doc_by_tag", "doc_by_tag_ns"} -> {"C12"}
      [] op \in NsOps \cup {"prefix_value"} -> {"C08"}
      [] op = "get_element_by_id" -> {"C07"}
      [] op \in {"name_parse", "name_new_ns", "name_bytes", "name_raw", "name_set_prefix", "name_for", "name_eq"} -> {"C13"}
      [] op \in DocCreateOps -> {"C16"}
      [] op \in ParseOps -> {"C19"}
      [] op \in LifeOps -> {"C20"}
      [] op = "debug" -> {"C18"}
      [] op = "sweep_name" -> {"C13"}
      [] op = "sweep_edit" -> {"C09"}
      [] op = "sweep_split" -> {"C10"}
      [] op = "sweep_text" -> {"C14", "C16"}
      [] op \in {"sweep_value", "sweep_charref"} -> {"C15"}
      [] op = "sweep_encoding" -> {"C17"}
      [] op \in {"sweep_read", "sweep_readref"} -> {"C19"}
      [] op = "sweep_normal" -> {"C10"}
      [] op = "sweep_find" -> {"C12"}
      [] op = "sweep_id" -> {"C07"}
      [] op = "sweep_ns" -> {"C08"}
      [] op = "sweep_attr" -> {"C06"}
      [] op = "sweep_clone" -> {"C11"}
      [] op = "sweep_feature" -> {"C17"}
      [] op = "sweep_ser" -> {"C14"}
      [] op = "sweep_kinds" -> {"C16"}
      [] op = "sweep_parts" -> {"C13"}
      [] op \in {"grow kids", "grow chain"} -> {"C03"}
      [] op = "grow attrs" -> {"C06"}
      [] op = "grow ids" -> {"C06", "C07"}
      [] op = "grow texts" -> {"C09"}
      [] IsDirect(op) \/ op = "codes" -> {"C16"}
      [] OTHER -> {}

Named(op) == op \in {"create_attribute", "create_attribute_with", "create_attribute_ns",
                     "create_entity_reference", "create_element", "create_element_ns",
                     "create_processing_instruction", "create_document_type", "create_notation",
                     "create_entity", "create_internal_entity", "create_document",
                     "create_document_with_options", "set_attribute", "set_attribute_ns"}

(* What an error is about. *)
ErrAbout(x, op) ==
    CASE x = "HierarchyRequest" -> IF op \in ElemWriteOps THEN {"C02", "C06"} ELSE {"C02"}
      [] x = "WrongDocument" ->
           IF op \in {"create_document", "create_document_with_options"} THEN {"C05", "C17"} ELSE {"C05"}
      [] x = "InUseAttribute" -> {"C06"}
      [] x = "Syntax" -> IF op \in {"set_value", "set_node_value", "set_attribute_node", "set_attribute_node_ns"}
                         THEN {"C07"}
                         ELSE IF op \in {"set_attribute", "set_attribute_ns"} THEN {"C07", "C13"}
                         ELSE {"C13"}
      [] x \in {"InvalidCharacter", "Namespace"} ->
           IF op \in {"create_document", "create_document_with_options"} THEN {"C13", "C17"} ELSE {"C13"}
      [] x = "InvalidState" ->
           IF op \in {"create_document", "create_document_with_options"} THEN {"C05", "C17"}
           ELSE IF op \in {"create_notation", "create_entity", "create_internal_entity"} THEN {"C05", "C16"}
           ELSE {"C16"}
      [] OTHER -> Base(op)

IsErr(r) == r.k = "err"
Died(r) == r.k \in {"panic", "abort", "hang"}
ErrsOf(R) == {r \in R : IsErr(r)}

ResultOk(c, e) ==
    IF c.m = "ser"
    THEN e.r.k = "str" /\ e.r.s # <<>> /\ e.r.s[1] # None /\ SerOk(c.S, e.n[1], e.r.s[1][1])
    ELSE c.m = "still" \/ e.r \in c.R

(* Both operations succeeded, or both failed: what differs in the result.  *)
ResultBlame(R, e) ==
    LET anticipated == {x.e : x \in ErrsOf(R)} IN
    IF Died(e.r) THEN Base(e.op) \cup {"C18"} \cup UNION {ErrAbout(x, e.op) : x \in anticipated}
    ELSE IF IsErr(e.r)
         THEN IF anticipated = {} THEN Base(e.op) \cup ErrAbout(e.r.e, e.op)
              ELSE ErrAbout(e.r.e, e.op) \cup UNION {ErrAbout(x, e.op) : x \in anticipated}
    ELSE IF anticipated # {} THEN UNION {ErrAbout(x, e.op) : x \in anticipated}
    ELSE IF e.op \in {"get_attribute", "get_attribute_ns"} THEN {"C06", "C15"}
    ELSE Base(e.op)

SameVal(exp, got) == exp = got \/ IsPanic(exp)
Among(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : p[i] \subseteq q[i]
SameProj(x, y) ==
    /\ [x EXCEPT !.val = IF IsPanic(@) THEN y.val ELSE @, !.upf = y.upf, !.upr = y.upr] = y
    /\ Among(y.upf, x.upf) /\ Among(y.upr, x.upr)
Plain(O) == [n \in 1..Len(O) |-> [O[n] EXCEPT !.upf = <<>>, !.upr = <<>>]]

(* Is this about a node whose document is gone?                            *)
Bereft(S, e) == \E k \in Elems(e.n) \cap (1..Len(S)) : S[k].doc # Owner(S, k)

(* Node n is not as it should be: x is the specification's projection of   *)
(* it, O what is observed.                                                 *)
LinkFields(x) == <<x.par, x.kids, x.first, x.last, x.prev, x.next, x.hk>>
AttrFields(x) == <<x.own, x.attrs, x.ha, x.ak, x.spec>>
NameFields(x) == <<x.ns, x.pf, x.ln, x.qn>>
FieldBlame(Sx, O, n, x, e, pr) ==
    LET y == O[n]
        b == Base(e.op)
        attrsSame == \A m \in Nodes(O) : m <= Len(Sx) =>
                        LET z == Proj(Sx, m, pr) IN
                        AttrFields(z) = AttrFields(O[m]) /\ (z.ty = "Attribute" => SameVal(z.val, O[m].val))
    IN (IF e.op \in LifeOps THEN b ELSE {})
       \cup (IF x.ty # y.ty THEN {"C16"} \cup b ELSE {})
       \cup (IF NameFields(x) # NameFields(y) THEN b \cup (IF Named(e.op) THEN {"C13"} ELSE {}) ELSE {})
       \cup (IF LinkFields(x) # LinkFields(y) THEN b ELSE {})
       \cup (IF x.doc # y.doc THEN {"C05"} \cup (IF e.op = "clone_node" THEN b ELSE {}) ELSE {})
       \cup (IF AttrFields(x) # AttrFields(y) THEN {"C06"} \cup b ELSE {})
       \cup (IF SameVal(x.val, y.val) THEN {}
             ELSE IF x.ty = "Attribute"
                  THEN IF ValueOk(O, n) THEN {"C06"} \cup b ELSE {"C15"}
                  ELSE b)
       \cup (IF x.ids # y.ids /\ (attrsSame \/ ~IdsOk(Sx, O, n, pr)) THEN {"C07"} ELSE {})
       \cup (IF x.nsp # y.nsp /\ (attrsSame \/ ~MappingOk(Sx, O, n, pr))
             THEN {"C08"} \cup (IF e.op = "clone_node" THEN b ELSE {}) ELSE {})
       \cup (IF x.nsr # y.nsr /\ ~ResolveOk(Sx, O, n) THEN {"C08"} ELSE {})
       \cup (IF ~Among(y.upf, x.upf) /\ (attrsSame \/ ~PrefixOk(Sx, O, n, pr))
             THEN {"C08"} \cup (IF e.op = "clone_node" THEN b ELSE {}) ELSE {})
       \cup (IF ~Among(y.upr, x.upr) /\ attrsSame /\ (\A m \in Nodes(O) : m <= Len(Sx) => Proj(Sx, m, pr).par = O[m].par)
             THEN {"C08"} ELSE {})
       \cup (IF x.dt # y.dt \/ x.decl # y.decl \/ x.pub # y.pub \/ x.sys # y.sys
             THEN b \cup (IF x.ty \in {"Document", "DocumentType"} THEN {"C17"} ELSE {}) ELSE {})

(* After a difference: it ought to be as it was, and is.                   *)
Stale(Sx, O, n, pr) ==
    /\ vStop = "again" /\ n <= Len(vObs) /\ O[n] = vObs[n] /\ n <= Len(vState)
    /\ Proj(vState, n, pr) = Proj(Sx, n, pr)
Mismatches(Sx, O, pr) ==
    {n \in 1..(IF Len(O) < Len(Sx) THEN Len(O) ELSE Len(Sx)) :
        ~SameProj(Proj(Sx, n, pr), O[n]) /\ ~Stale(Sx, O, n, pr)}

BlameOf(c, O, e, pr) ==      \* c: what was expected
    LET failed == IsErr(e.r)
        expectedFailure == \E r \in c.R : IsErr(r)
        R == IF ResultOk(c, e) THEN {} ELSE ResultBlame(c.R, e)
        atomic == IF failed /\ Plain(O) # Plain(vObs) THEN {"C04"} ELSE {}
        M == Mismatches(c.S, O, pr)
        fields == UNION {FieldBlame(c.S, O, n, Proj(c.S, n, pr), e, pr) : n \in M}
        count == IF Len(O) # Len(c.S) THEN Base(e.op) ELSE {}
        broken == FailsOn(O)
    IN IF Died(e.r) THEN R
       ELSE IF failed /\ ~expectedFailure THEN R \cup atomic \cup (IF atomic = {} THEN {} ELSE broken)
       ELSE IF ~failed /\ expectedFailure THEN R \cup broken
       ELSE IF failed THEN R \cup atomic \cup (IF atomic = {} THEN {} ELSE broken)
       ELSE R \cup fields \cup count \cup broken
Blame(c, O, e, pr) ==
    BlameOf(c, O, e, pr) \cup (IF Bereft(vState, e) THEN {"C20"} ELSE {})

(* -------------------------------- steps -------------------------------- *)
Singly(q) == [i \in 1..Len(q) |-> {q[i]}]
Num(p) == [p EXCEPT !.attrs = Elems(@), !.upf = Singly(@), !.upr = Singly(@)]
RECURSIVE Merge(_, _)
Merge(O, d) ==
    IF d = <<>> THEN O
    ELSE LET x == d[1]
         IN Merge(IF x[1] = Len(O) + 1 THEN Append(O, Num(x[2])) ELSE [O EXCEPT ![x[1]] = Num(x[2])], Tail(d))

Agrees(c, O, e, pr) ==
    /\ ResultOk(c, e)
    /\ Len(O) = Len(c.S)
    /\ \A n \in 1..Len(O) : SameProj(Proj(c.S, n, pr), O[n]) \/ Stale(c.S, O, n, pr)

Candidates(e) ==
    <<Apply(vState, e)>> \o (IF HasIdeal(vState, e) THEN <<ApplyIdeal(vState, e)>> ELSE <<>>)

(* After a difference the state is what is observed, as far as it is: what  *)
(* follows is judged from there.                                            *)
Adopt(x, y, O, pr) ==
    [x EXCEPT !.doc = IF y.doc = 0 /\ @ # 0 /\ @ <= Len(O) /\ O[@].ty = "Gone" THEN @ ELSE y.doc,
               !.ty = y.ty, !.ns = y.ns, !.pf = y.pf, !.ln = y.ln,
              !.val = IF y.ty = "Attribute" THEN None ELSE y.val,
              !.par = y.par, !.kids = y.kids, !.own = y.own, !.attrs = y.attrs, !.dt = y.dt,
              !.decl = IF y.decl = <<>> THEN None ELSE Some(y.decl), !.pub = y.pub, !.sys = y.sys,
              !.nsm = {z \in @ : \A i \in 1..Len(y.nsp) : pr.pf[i] # z[1]}
                      \cup {<<pr.pf[i], y.nsp[i][1]>> : i \in {j \in 1..Len(y.nsp) : y.nsp[j] # None}},
              !.ids = {z \in @ : \A i \in 1..Len(y.ids) : pr.id[i] # z[1]}
                      \cup {<<pr.id[i], y.ids[i]>> : i \in {j \in 1..Len(y.ids) : y.ids[j] # 0}}]
Resync(T, O, pr) ==
    TLCEval([n \in 1..Len(O) |->
        Adopt(IF n <= Len(T) THEN T[n] ELSE NewNode(O[n].ty, TextName, None, 0), O[n], O, pr)])
Usable(O) ==      \* is what is observed a state at all?
    \A n \in Nodes(O) :
        /\ O[n].ty \in Types \cup {"Gone"}
        /\ Elems(O[n].kids) \cup O[n].attrs \subseteq Nodes(O)
        /\ {O[n].par, O[n].doc, O[n].own, O[n].dt} \subseteq {0} \cup Nodes(O)
        /\ O[n].par # 0 => Has(O[O[n].par].kids, n)
        /\ NoDup(O[n].kids) /\ \A k \in Elems(O[n].kids) : O[k].par = n
        /\ O[n].attrs # {} => O[n].ty = "Element"
        /\ O[n].own # 0 => n \in O[O[n].own].attrs
        /\ \A a \in O[n].attrs : O[a].ty = "Attribute" /\ O[a].own = n
        /\ O[n].doc # 0 => O[O[n].doc].ty = "Document"
        /\ O[n].ty \notin {"Document", "DocumentType"} => O[n].doc # 0 \/ AnyGone(O)
        /\ O[n].dt # 0 => O[O[n].dt].ty = "DocumentType"
        /\ Climb(O, n, Len(O) + 1)

Report(c, O, e, pr, blame) ==
    LET M == Mismatches(c.S, O, pr) IN
    PrintT(ToJson([blame |-> blame, trace |-> vTrace, step |-> vStep, op |-> e.op,
                   expected |-> c.R, got |-> e.r,
                   nodes |-> [have |-> Len(O), want |-> Len(c.S)],
                   diffs |-> {[n |-> n, want |-> Proj(c.S, n, pr), got |-> O[n]] : n \in M}]))

(* Where what is observed is no state, the specification has nothing to say *)
(* of what should come next, but the properties of what is observed still   *)
(* hold or fail: those which fail for the first time are reported.          *)
ReportFails(fails, e) ==
    PrintT(ToJson([blame |-> fails, trace |-> vTrace, step |-> vStep, op |-> e.op,
                   expected |-> {}, got |-> e.r, nodes |-> [have |-> 0, want |-> 0], diffs |-> {}]))

Init ==
    /\ vTrace \in 1..Len(Traces)
    /\ vStep = 1 /\ vState = <<>> /\ vObs = <<>> /\ vStop = "no" /\ vFails = {} /\ vReports = 0

Watch(e) ==
    LET O == Merge(vObs, e.d)
        fails == IF Died(e.r) THEN {} ELSE FailsOn(O) \ vFails
    IN /\ fails # {} => ReportFails(fails, e)
       /\ vObs' = O /\ vFails' = vFails \cup fails
       /\ UNCHANGED <<vState, vStop, vReports>>

Step(e, pr) ==
    LET cs == Candidates(e)
        O == Merge(vObs, e.d)
        fits == {k \in 1..Len(cs) : Agrees(cs[k], O, e, pr)}
    IN IF RPanic \in cs[1].R
       THEN \* nothing more can be said of this history
            vStop' = "end" /\ UNCHANGED <<vState, vObs, vFails, vReports>>
       ELSE IF cs[1].m = "any" /\ ~Died(e.r)
       THEN \* it is not said what this gives: nothing, or a document
            LET fails == FailsOn(O) \ vFails IN
            /\ fails # {} => ReportFails(fails \cup {"C19"}, e)
            /\ vStop' = (IF O = vObs /\ fails = {} THEN vStop ELSE "end")
            /\ UNCHANGED <<vState, vObs, vFails, vReports>>
       ELSE IF Died(e.r) \/ fits = {}
       THEN LET blame == Blame(cs[1], O, e, pr) \ (IF Died(e.r) THEN {} ELSE vFails)
                all == vReports + (IF blame = {} THEN 0 ELSE 1)
            IN /\ (blame # {} \/ vReports = 0) => Report(cs[1], O, e, pr, blame)
               /\ vStop' = (IF Died(e.r) \/ all > 4 THEN "end" ELSE IF Usable(O) THEN "again" ELSE "watch")
               /\ vObs' = O /\ vFails' = vFails \cup (IF Died(e.r) THEN {} ELSE FailsOn(O))
               /\ vState' = (IF ~Died(e.r) /\ Usable(O) THEN Resync(cs[1].S, O, pr) ELSE vState)
               /\ vReports' = all
       ELSE vState' = cs[CHOOSE k \in fits : TRUE].S /\ vObs' = O /\ UNCHANGED <<vStop, vFails, vReports>>

Next ==
    /\ vStop # "end"
    /\ vStep <= Len(Traces[vTrace].e)
    /\ IF vStop = "watch" THEN Watch(Traces[vTrace].e[vStep])
       ELSE Step(Traces[vTrace].e[vStep], Traces[vTrace].pr)
    /\ vStep' = vStep + 1 /\ vTrace' = vTrace

Spec == Init /\ [][Next]_vars

(* The properties on everything that is observed. *)
ObservedOk == vStop = "no" => WellFormed(vState, vObs, Traces[vTrace].pr)
View == <<vTrace, vStep>>
=============================================================================
