-------------------------------- MODULE Views -------------------------------
(* C10: every view of an adjacency describes the same graph.               *)
EXTENDS Topology, Keys

Is(name, r, want) ==
    Failing({<<name \o "-refused", r.ok>>, <<name, ~r.ok \/ r.v = want>>})
Weights(e) == IF e.w = <<>> THEN Ones(e.E) ELSE e.w
CountIn(s, x) == Cardinality({i \in Idx(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range0(s) : CountIn(s, x) = CountIn(t, x)

NodesOk(E, ns) ==
    /\ Range0(ns) = Vertices(E)
    /\ Len(ns) = Cardinality(Vertices(E))
    /\ \A i \in 1..Len(ns) - 1 : Abs(ns[i]) <= Abs(ns[i + 1])
SparseOk(E, data, s) ==
    LET n == Cardinality(Vertices(E))
        C == Cells(E)
    IN  /\ s.shape = <<n, n>>
        /\ SameBag(s.items, [i \in Idx(E) |-> <<C[i][1] - 1, C[i][2] - 1, data[i]>>])
Holds(name, r, p) == Failing({<<name \o "-refused", r.ok>>, <<name, ~r.ok \/ p>>})

ViewBad(e) ==
    LET E == e.E IN
    CASE e.view = "nodes" -> Holds("nodes", e.r, NodesOk(E, e.r.v))
      [] e.view = "roots" -> Is("roots", e.r, MaskOf(RootEdges(E), Len(E)))
      [] e.view = "leaves" -> Is("leaves", e.r, MaskOf(LeafEdges(E), Len(E)))
      [] e.view = "matrix" -> Is("matrix", e.r, Matrix(E, Weights(e)))
      [] e.view = "edges" -> Is("edges", e.r, E)
      [] e.view = "weights" -> Is("weights", e.r, e.w)
      [] e.view = "serialize" -> Is("serialize", e.r, E)
      [] e.view = "length" -> Is("length", e.r, Len(E))
      [] e.view = "sparse" -> Holds("sparse", e.r,
             SparseOk(E, [i \in Idx(E) |-> IF Dst(E, i) > 0 THEN 1 ELSE 0], e.r.v))
      [] e.view = "sparse-data" -> Holds("sparse-data", e.r, SparseOk(E, e.data, e.r.v))
      [] OTHER -> {}

(* From a dense matrix: 0-based labels, one edge per non-zero entry, and   *)
(* one self edge per node if asked for.                                    *)
NonZero(M) == {<<i - 1, j - 1>> : <<i, j>> \in
                  {p \in (1..Len(M)) \X (1..Len(M)) : M[p[1]][p[2]] # 0}}
Loops(M) == {<<i - 1, i - 1>> : i \in 1..Len(M)}
WantEdges(e) == NonZero(e.M) \cup (IF e.loop THEN Loops(e.M) ELSE {})
FromBad(e) ==
    LET W == WantEdges(e)
        es == e.r.v.E
        ws == e.r.v.w
    IN  IF ~e.r.ok THEN {"from-matrix-refused"}
        ELSE Failing({
          <<"from-matrix-edges", Range0(es) = W /\ Len(es) = Cardinality(W)>>,
          <<"from-matrix-weights",
              IF ~e.weighted THEN ws = <<>>
              ELSE /\ Len(ws) = Len(es)
                   /\ \A i \in Idx(es) :
                        (e.loop /\ es[i][1] = es[i][2]) \/
                        ws[i] = e.M[es[i][1] + 1][es[i][2] + 1]>>,
          <<"from-matrix-input-changed", e.same>>}) \cup
          (LET V == Ascending({x[1] : x \in W} \cup {x[2] : x \in W})
               want(i, j) ==
                   IF <<V[i], V[j]>> \notin W THEN 0
                   ELSE IF e.weighted THEN e.M[V[i] + 1][V[j] + 1] ELSE 1
               got == e.back.v
           IN  Failing({
              <<"matrix-round-trip",
                  /\ e.back.ok
                  /\ Len(got) = Len(V)
                  /\ \A i, j \in Idx(V) :
                       (i = j /\ e.loop /\ e.weighted) \/ got[i][j] = want(i, j)>>}))

SelectBad(e) ==
    LET idx == TLCEval(KeyRows(e.key, Len(e.E)))
        E == Take(e.E, idx)
        w == IF e.w = <<>> THEN <<>> ELSE Take(e.w, idx)
    IN  Is("select-edges", e.edges, E) \cup Is("select-weights", e.weights, w) \cup
        Is("select-matrix", e.matrix, Matrix(E, IF w = <<>> THEN Ones(E) ELSE w))

CopyBad(e) == Is("copy-edges", e.edges, e.E) \cup Is("copy-weights", e.weights, e.w)

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "view" -> ViewBad(e)
       [] e.k = "from" -> FromBad(e)
       [] e.k = "select" -> SelectBad(e)
       [] e.k = "copy" -> CopyBad(e)
       [] OTHER -> {})
=============================================================================
