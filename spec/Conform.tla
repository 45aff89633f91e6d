------------------------------ MODULE Conform ------------------------------
(* Conformance of recorded executions.  Every line of the trace is one call  *)
(* of the real code with its arguments, its outcome and the observed state.  *)
(* The specification computes what the call must do; every line gets a       *)
(* verdict and every difference is printed with the clause it breaks.        *)
EXTENDS Processors, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line
          heap,   \* live objects
          lost    \* the rest of this history cannot be judged
vars == <<l, heap, lost>>

None == [x \in {} |-> N]
Entry(v, procs) == [val |-> v, procs |-> procs, convs |-> <<>>]
DocEntry(v, convs, vals) == [val |-> v, procs |-> vals, convs |-> convs]
Put(h, id, e) == (id :> e) @@ h

(* first clause that fails *)
RECURSIVE First(_)
First(cl) == IF Len(cl) = 0 THEN "" ELSE IF cl[1][2] THEN First(Tail(cl)) ELSE cl[1][1]

Outcome(expected, e) == expected = "any" \/ e.r = expected
Has2(e, f) == f \in DOMAIN e

(* accepted calls: the observed object; its written form; reloading it.     *)
(* [t |-> "="] stands for "the same tree as": outj as out, re.val as val,    *)
(* re.out as out.                                                            *)
Is(x, same, expected) == IF x.t = "=" THEN same ELSE Same(x, expected)
Written(e, v) ==
  LET re == Has2(e, "re") /\ e.re.r = "ok"
      lossy == re /\ e.re.val.t # "=" /\ ~Same(e.re.val, v) /\ Same(e.re.val, Refill(v))
  IN
  << <<"object", Same(e.val, v)>>,
     <<"output", Has2(e, "out") => Same(Dump(v), e.out)>>,
     <<"output as JSON", Has2(e, "outj") => Is(e.outj, TRUE, Dump(v))>>,
     <<"reload accepted", Has2(e, "re") => e.re.r = "ok">>,
     <<"reloaded object", re => (Is(e.re.val, TRUE, v) \/ lossy)>>,
     <<"reloaded equal", re => (e.re.eq \/ lossy)>>,
     <<"reload output", re => (Is(e.re.out, TRUE, e.out) \/ lossy)>>,
     <<"known D02-null", ~(re /\ lossy)>> >>

SetOf(s) == {s[i] : i \in DOMAIN s}
(* an assignment counts the attribute among those explicitly given, and no other *)
Marked(e) == e.r = "ok" => SetOf(e.said[2]) = SetOf(e.said[1]) \cup {e.name}
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

(* the warnings of a validation that accepts: those of the unified validator *)
(* name every URL; the others are one per reference at a documented place.   *)
(* Of these the references whose strings occur in each message are recorded. *)
ListedFit(doc, places, kind, warned) ==
  LET expected == ListedWarnings(doc, places)
      outside == SelectSeq(DocSlots(doc), LAMBDA s : s.kinds = {kind} /\ ~IsInternal(s.ref))
      naming(xs) == Cardinality({i \in DOMAIN warned : SetOf(warned[i]) \cap xs # {}})
      each == \A x \in SetOf(expected) : CountIn(expected, x) <= naming({x})
  IN IF Len(outside) = Len(expected) THEN each /\ Len(warned) = Len(expected) /\ naming(SetOf(expected)) = Len(warned)
     ELSE each
WarningsFit(p, doc, warned) ==
  CASE p = "Unified" -> UnifiedWarnings(doc) \subseteq SetOf(warned)
    [] p = "Tags" -> ListedFit(doc, TagPlaces, "Tag", warned)
    [] p = "Docs" -> ListedFit(doc, DocPlaces, "ExternalDocumentation", warned)
    [] OTHER -> TRUE

HasKind(ty, k) == ty.k = k \/ (ty.k = "union" /\ \E i \in DOMAIN ty.alts : ty.alts[i].k = k)
WithField(d, f, v) == O(Append(SelectSeq(d.v, LAMBDA p : p[1] # f), <<f, v>>))

(* whether an object has a part at the path, of one of the sorts *)
RECURSIVE PartIs(_, _, _)
PartIs(v, path, sorts) ==
  IF Len(path) = 0 THEN v.t \in sorts
  ELSE CASE v.t = "a" -> path[1] <= Len(v.v) /\ PartIs(v.v[path[1]], Tail(path), sorts)
         [] v.t \in {"m", "M", "o"} -> LET w == Step(v, path[1]) IN w.t # "missing" /\ PartIs(w, Tail(path), sorts)
         [] OTHER -> FALSE

(* every event: [bad, heap, lost] *)
Judge(e) ==
  LET done(bad, h) == [bad |-> bad, heap |-> IF bad = "" THEN h ELSE heap, lost |-> bad # ""]
      pure(bad) == [bad |-> bad, heap |-> heap, lost |-> FALSE]
      others == IF Has2(e, "also") THEN e.also ELSE <<>>
      quiet == <<"other objects unchanged", \A i \in DOMAIN others : others[i].sets /\ Same(others[i].val, heap[others[i].id].val)>>
      calm == <<"no processor runs", ~Has2(e, "log")>>
      keep(id, v) == [heap[id] EXCEPT !.val = v]
      (* an operation that runs processors: what they did, the document, its lists *)
      edits(log) == \E i \in DOMAIN log : What(log[i].p) \in {"Title", "Chan", "Drop"}
      pop(x, id, convs, vals, fresh) ==
        LET log == IF Has2(e, "log") THEN e.log ELSE <<>>
            n == IF Len(log) < Len(x.log) THEN Len(log) ELSE Len(x.log)
            same == {i \in 1..n : log[i].p = x.log[i].p /\ Same(log[i].val, x.log[i].val)}
            bad == First(<< <<"outcome " \o x.r \o " expected", Outcome(x.r, e)>>,
                            <<"number of processor runs", Len(log) = Len(x.log)>>,
                            <<"processor runs", same = 1..n>>,
                            <<"processors see the document itself", e.r = "ok" => \A i \in DOMAIN log : log[i].me = x.log[i].me>>,
                            <<"object", e.r = "ok" => Same(x.val, e.val)>>,
                            <<"processor lists", e.r = "ok" => e.pl = <<convs, vals>>>>,
                            <<"unchanged when rejected", (e.r # "ok" /\ ~fresh /\ ~edits(x.log)) => e.same>>,
                            quiet >>)
        IN done(bad, IF e.r = "ok" THEN Put(heap, id, DocEntry(x.val, convs, vals))
                     ELSE IF fresh THEN heap ELSE Put(heap, id, keep(id, e.val)))
      mutation(res, id, procs) ==
        LET seen == IF res.r = "any" /\ e.r = "ok" THEN e.val ELSE res.val
            bad == First(<< <<"outcome " \o res.r \o " expected", Outcome(res.r, e)>>,
                            <<"unchanged when rejected", e.r # "ok" => e.same>>,
                            <<"object", IF e.r = "ok" THEN Same(seen, e.val) ELSE Same(heap[id].val, e.val)>>,
                            <<"explicitly given fields", Has2(e, "said") => Marked(e)>>,
                            calm, quiet >>)
        IN done(bad, IF e.r = "ok" THEN Put(heap, id, keep(id, seen)) ELSE heap)
  IN
  CASE e.op = "reset" -> [bad |-> "", heap |-> None, lost |-> FALSE]
    [] e.op = "load" ->   \* a fresh object from data, not kept
         LET res == Construct(e.c, e.arg, <<>>)
         IN pure(First(<< <<"outcome " \o res.r \o " expected", e.r = res.r>> >>
                       \o (IF e.r = "ok" THEN Written(e, res.val) ELSE <<>>)))
    [] e.op = "step" ->   \* a fresh object from data, then one assignment
         LET res == Construct(e.c, e.arg, <<>>) IN
         IF res.r # "ok" \/ e.at # "set" THEN pure(First(<< <<"construction " \o res.r \o " expected", e.at = "build" /\ e.r = res.r>> >>))
         ELSE LET to == Assign(res.val, e.name, e.to, <<>>)
              IN pure(First(<< <<"assignment " \o to.r \o " expected", Outcome(to.r, e)>>,
                               <<"unchanged when rejected", e.r # "ok" => e.same>>,
                               <<"object", e.r = "ok" => Same(to.val, e.val)>>,
                               <<"explicitly given fields", Marked(e)>> >>))
    [] e.op = "sweep" ->  \* many values for one field of otherwise the same data, loaded or assigned
         LET base == Construct(e.c, e.base, <<>>)
             f == Meta[e.c].f[FieldIx[e.c][e.f]]
             odd(v) == v.t = "s" /\ ((HasKind(f.ty, "email") /\ OddEmail(v.v)) \/ (HasKind(f.ty, "semver") /\ OddVersion(v.v)))
             res(v) == IF e.mode = "load" THEN Construct(e.c, WithField(e.base, e.f, v), <<>>).r
                       ELSE Assign(base.val, f.py, v, <<>>).r
             wrong == {i \in DOMAIN e.vals : e.rs[i] # res(e.vals[i]) /\ ~(odd(e.vals[i]) /\ e.rs[i] \in {"ok", "rej"})}
         IN pure(IF e.mode = "set" /\ base.r # "ok" THEN "sweep base"
                 ELSE IF Len(e.rs) # Len(e.vals) THEN "sweep stopped"
                 ELSE IF wrong = {} THEN ""
                 ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j IN "value " \o ToString(i) \o ": " \o res(e.vals[i]) \o " expected")
    [] e.op = "new" ->
         LET data == Subst(heap, e.arg)
             res == Construct(e.c, data, e.procs)
             bad == First(<< <<"outcome " \o res.r \o " expected", Outcome(res.r, e)>>,
                             <<"object", e.r = "ok" => Same(res.val, e.val)>>, quiet>>)
         IN done(bad, IF e.r = "ok" THEN Put(heap, e.id, Entry(res.val, e.procs)) ELSE heap)
    [] e.op = "set" ->
         LET o == heap[e.id]
             data == Subst(heap, e.arg)
             res == IF e.path = <<>> THEN Assign(o.val, e.name, data, o.procs)
                    ELSE OnPart(o.val, e.path, LAMBDA p : Assign(p, e.name, data, <<>>))
         IN mutation(res, e.id, o.procs)
    [] e.op = "put" ->
         LET o == heap[e.id]
             data == Subst(heap, e.arg)
         IN mutation(OnPart(o.val, e.path, LAMBDA p : PutItem(p, e.key, data)), e.id, o.procs)
    [] e.op = "del" ->
         LET o == heap[e.id]
         IN mutation(OnPart(o.val, e.path, LAMBDA p : DelItem(p, e.key)), e.id, o.procs)
    [] e.op = "append" ->   \* in-place change of a list, seen by no validation
         LET o == heap[e.id]
         IN mutation(OnPart(o.val, e.path, LAMBDA p : Res("ok", [p EXCEPT !.v = Append(@, e.arg)])), e.id, o.procs)
    [] e.op = "look" ->
         LET m == PartAt(heap[e.id].val, e.path)
             i == Index(m.v, e.key)
         IN pure(First(<< <<"membership", e.in = (i # 0)>>,
                          <<"item", IF i = 0 THEN e.got.t = "KeyError" ELSE Same(e.got, m.v[i][2])>>,
                          <<"length", e.len = Len(m.v)>>,
                          <<"iteration order", Len(e.keys) = Len(m.v) /\ \A k \in 1..Len(m.v) : e.keys[k] = m.v[k][1]>> >>))
    [] e.op = "dump" ->
         LET v == PartAt(heap[e.id].val, e.path)
             sound == ParseObject(v.c, v).ok     \* not made invalid by in-place changes
         IN pure(First((IF sound THEN Written(e, v) ELSE << <<"object", Same(e.val, v)>> >>) \o << <<"unchanged by writing", e.same>> >>))
    [] e.op = "pnew" -> pop(PConstruct(Subst(heap, e.arg), e.convs, e.vals), e.id, e.convs, e.vals, TRUE)
    [] e.op = "pset" ->
         LET o == heap[e.id] IN pop(PAssign(o.val, e.name, Subst(heap, e.arg), o.convs, o.procs), e.id, o.convs, o.procs, FALSE)
    [] e.op = "plist" ->   \* one of the lists of processors assigned
         LET o == heap[e.id]
             c == IF e.which = "convs" THEN e.list ELSE o.convs
             v == IF e.which = "vals" THEN e.list ELSE o.procs
         IN pop(Process(o.val, c, v), e.id, c, v, FALSE)
    [] e.op = "pagain" ->  \* a document validated again gives another one
         LET o == heap[e.id] IN pop(PConstruct(o.val, o.convs, o.procs), e.to, o.convs, o.procs, TRUE)
    [] e.op = "attach" ->  \* a processor added to a list in place
         LET o == heap[e.id]
         IN done(First(<< <<"object", Same(e.val, o.val)>>, calm, quiet >>),
                 Put(heap, e.id, [o EXCEPT !.convs = IF e.which = "convs" THEN Append(@, e.p) ELSE @,
                                           !.procs = IF e.which = "vals" THEN Append(@, e.p) ELSE @]))
    [] e.op = "lists" -> pure(First(<< <<"processor lists", e.pl = <<heap[e.id].convs, heap[e.id].procs>>>> >>))
    [] e.op = "build" ->
         LET b == Build(Subst(heap, O(e.args)).v, Subst(heap, O(e.kw)).v, e.convs, e.vals)
         IN pop(b, e.id, b.convs, b.vals, TRUE)
    [] e.op = "rebuild" ->   \* an object constructed with the current field values of another
         LET v == PartAt(heap[e.id].val, e.path)
             res == Construct(v.c, v, IF e.path = <<>> THEN heap[e.id].procs ELSE <<>>)
         IN pure(First(<< <<"construction " \o res.r \o " expected", Outcome(res.r, e)>>,
                          <<"object", Same(e.was, v)>>,
                          <<"constructed object", e.r = "ok" => Is(e.val, TRUE, v)>>,
                          <<"equal to the constructed object", e.r = "ok" => e.eq>>,
                          <<"output of the constructed object", e.r = "ok" => e.out.t = "=">>,
                          <<"unchanged by reading", e.same>> >>))
    [] e.op = "eq" ->
         pure(First(<< <<"equality", IF e.res THEN Alike(heap[e.a].val, heap[e.b].val, TRUE) ELSE ~Alike(heap[e.a].val, heap[e.b].val, FALSE)>>,
                       <<"inequality", e.ne = ~e.res>> >>))
    [] e.op = "ctor" ->   \* a reference constructor
         done(First(<< <<"accepted", e.r = "ok">>,
                       <<"denotes the named object", Denotes(Constructors[e.ctor], e.name, e.val)>>, quiet >>),
              Put(heap, e.id, Entry(e.val, <<>>)))
    [] e.op = "alike" ->  \* two references as set members and mapping keys
         LET same == RefString(heap[e.a].val) = RefString(heap[e.b].val)
         IN pure(First(<< <<"equality", e.res = same>>, <<"inequality", e.ne = ~same>>,
                          <<"set members", e.size = IF same THEN 1 ELSE 2>>, <<"membership", e.in = same>>,
                          <<"mapping keys", e.mapkey = same>>, <<"hash", same => e.hash>> >>))
    [] e.op = "adopt" ->   \* an object brought into this state by means outside the model
         [bad |-> "", heap |-> Put(heap, e.id, Entry(e.val, e.procs)), lost |-> FALSE]
    [] e.op = "verdict" ->   \* a document from data with validators
         LET res == Construct("AsyncAPI3", e.arg, e.procs)
         IN pure(First(<< <<"outcome " \o res.r \o " expected", Outcome(res.r, e)>>,
                          <<"warnings", (e.r = "ok" /\ res.r = "ok" /\ Len(e.procs) = 1) =>
                              \A i \in DOMAIN e.procs : WarningsFit(e.procs[i], res.val, e.warned)>> >>))
    [] e.op = "resolve" ->   \* references followed by hand in a document from data or a live one
         LET res == IF Has2(e, "id") THEN Res("ok", heap[e.id].val) ELSE Construct("AsyncAPI3", e.arg, <<>>)
             fit(i) == LET x == e.hits[i]
                           q == e.refs[i]
                           t == Trail(res.val, q.ref, SetOf(q.seen))
                       IN First(<< <<"outcome " \o t.r \o " expected", x.r = t.r>>,
                                   <<"object found", (x.r = "ok" /\ t.r = "ok") => Same(x.val, t.val)>>,
                                   <<"the object of the document", (x.r = "ok" /\ t.r = "ok" /\ t.val.t \in {"m", "M", "a", "o"}) => x.at = Parts(t.ref)>>,
                                   <<"type of the object", x.r = "ok" => x.typed>>,
                                   <<"path to the object", (x.r = "ok" /\ t.r = "ok") => x.path = "spec" \o Dotted(Parts(t.ref))>>,
                                   <<"references followed", (x.r \in {"ok", "none"} /\ q.given = 1) => SetOf(x.seen) = t.seen>>,
                                   <<"warning", (x.r = "none" /\ t.r = "none") => \E k \in DOMAIN x.warned : x.warned[k] = t.ref>> >>)
             bad == IF res.r = "ok" /\ e.r = "ok" THEN {i \in DOMAIN e.hits : TLCEval(fit(i)) # ""} ELSE {}
         IN pure(First(<< <<"outcome " \o res.r \o " expected", e.r = res.r>>,
                          <<"all references tried", e.r = "ok" => Len(e.hits) = Len(e.refs)>>,
                          <<IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN "reference " \o ToString(i) \o ": " \o fit(i), bad = {}>>,
                          <<"unchanged by resolving", e.r = "ok" => e.same>> >>))
    [] e.op = "copy" ->   \* a deep copy of an object or a part of one
         LET v == PartAt(heap[e.id].val, e.path)
             o == heap[e.id]
             x == IF e.path = <<>> THEN [o EXCEPT !.val = v] ELSE Entry(v, <<>>)
         IN done(First(<< <<"copied", e.r = "ok">>, <<"copy", Same(e.val, v)>>, <<"copy equal", e.eq>>, <<"output of the copy", e.out.t = "=">>,
                          <<"explicitly given fields of the copy", e.sets>>, <<"processor lists of the copy", e.pl = <<x.convs, x.procs>>>>,
                          <<"another object", e.apart>>, <<"unchanged by copying", e.same>>, calm, quiet >>),
                 Put(heap, e.to, x))
    [] e.op = "check" ->   \* a validator called on a live document
         LET doc == heap[e.id].val
             res == Verdict(e.p, doc)
         IN pure(First(<< <<"verdict " \o res \o " expected", Outcome(res, e)>>,
                          <<"unchanged by validation", e.same>>,
                          <<"the document handed back", e.r = "ok" => e.back>>,
                          <<"warnings", (e.r = "ok" /\ res = "ok") => WarningsFit(e.p, doc, e.warned)>> >>))
    [] e.op = "stuck" ->   \* the objects or the part that the next operation is about were not there
         LET there == \A i \in DOMAIN e.ids : e.ids[i] \in DOMAIN heap
         IN pure(IF there /\ (e.of = 0 \/ (e.of \in DOMAIN heap /\ PartIs(heap[e.of].val, e.path, SetOf(e.want))))
                 THEN "the object and its part are there" ELSE "")
    [] OTHER -> pure("unknown event " \o e.op)

Init == l = 1 /\ heap = None /\ lost = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l]
               j == IF lost /\ e.op # "reset" THEN [bad |-> "", heap |-> heap, lost |-> TRUE] ELSE TLCEval(Judge(e))
           IN /\ heap' = j.heap /\ lost' = j.lost
              /\ IF j.bad = "" THEN TRUE ELSE PrintT(<<"BAD", l, j.bad>>)
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
