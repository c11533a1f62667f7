------------------------------ MODULE Selection -----------------------------
(* C05: selecting particles keeps every column aligned.                    *)
EXTENDS CompositeModel, Keys

(* o: what was observed of an object; want: the columns it must have.      *)
ObjBad(name, o, want) ==
    IF ~o.ok THEN {name \o "-refused"}
    ELSE {name \o "-" \o f : f \in Wrong(o.cols, want)} \cup
         Failing({<<name \o "-length", o.len = Length(want)>>,
                  <<name \o "-truth", o.truth = Truth(want)>>})
SelBad(e) ==
    LET idx == TLCEval(KeyRows(e.key, Length(e.cols)))
        want == TLCEval(SelectRows(e.cols, idx))
    IN
    ObjBad("selected", e.got, want) \cup
    ObjBad("source", e.src, e.cols) \cup
    (IF "key2" \notin DOMAIN e THEN {}
     ELSE LET idx2 == TLCEval(KeyRows(e.key2, Len(idx)))
              w2 == TLCEval(SelectRows(e.cols, ComposeKeys(idx, idx2)))
          IN  (IF SelectRows(want, idx2) = w2 THEN {} ELSE {"specification"}) \cup
              ObjBad("selected-twice", e.got2, w2) \cup
              ObjBad("selected-composed", e.got3, w2))
CopyBad(e) ==
    ObjBad("copy", e.got, e.cols) \cup
    ObjBad("source", e.src, e.cols) \cup
    ObjBad("after-change", e.later, e.cols)
Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "select" -> SelBad(e)
       [] e.k = "copy" -> CopyBad(e)
       [] OTHER -> {})
=============================================================================
