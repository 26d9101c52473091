------------------------------ MODULE Subbytes ------------------------------
(* Contract of snmp.utils.subbytes.  A view denotes a window [lo, hi) of one   *)
(* immutable byte sequence; views are created from the data or from a view and *)
(* are never changed by any operation.                                         *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Python's clamping of one slice bound against a sequence of length n
Clamp(i, n) == IF i < 0 THEN Max2(0, i + n) ELSE Min2(i, n)
\* optional bounds are sequences of length 0 or 1
Lower(o, n) == IF o = <<>> THEN 0 ELSE Clamp(o[1], n)
Upper(o, n) == IF o = <<>> THEN n ELSE Clamp(o[1], n)

Size(w) == w.hi - w.lo
Bytes(data, w) == SubSeq(data, w.lo + 1, w.hi)
\* the window denoted by w[a:b]
SubView(w, a, b) ==
    LET lo == w.lo + Lower(a, Size(w))
        hi == w.lo + Upper(b, Size(w))
    IN [lo |-> lo, hi |-> Max2(lo, hi)]
\* s[a:b:step] for step > 0
Strided(s, a, b, step) ==
    LET n == Len(s)
        lo == Lower(a, n)
        hi == Upper(b, n)
        cnt == IF hi <= lo THEN 0 ELSE ((hi - lo - 1) \div step) + 1
    IN [k \in 1..cnt |-> s[lo + (k - 1) * step + 1]]
InRange(i, n) == -n <= i /\ i < n
At(s, i) == IF i < 0 THEN s[Len(s) + i + 1] ELSE s[i + 1]

\* state: the data and the sequence of views created so far; view 0 is the data itself
InitSt(t) == [data |-> t.data, views |-> <<>>]
View(st, k) == IF k = 0 THEN [lo |-> 0, hi |-> Len(st.data)] ELSE st.views[k]
Val(st, k) == Bytes(st.data, View(st, k))

Clause(b, name) == IF b THEN {} ELSE {name}

Violated(st, e) ==
    IF e.err # "" /\ e.op \notin {"idx", "der"} THEN {"C05.unexpected-exception"}
    ELSE CASE e.op = "new" -> {}
      [] e.op = "adv" -> {}
      [] e.op = "spl" -> {}
      [] e.op = "obs" ->
            LET x == Val(st, e.v) IN
               Clause(e.len = Len(x), "C05.len")
          \cup Clause(e.truth = (Len(x) > 0), "C05.truth")
          \cup Clause(e.items = x, "C05.iteration")
          \cup Clause(e.copy = x, "C05.full-slice")
          \cup Clause(e.same, "C05.equality")
          \cup Clause(e.base = st.data, "C05.data-changed")
      [] e.op = "eq" -> Clause(e.out = (Val(st, e.v) = e.other), "C05.equality")
      [] e.op = "idx" ->
            LET x == Val(st, e.v) IN
            IF InRange(e.i, Len(x))
            THEN Clause(e.err = "" /\ e.out = <<At(x, e.i)>>, "C05.index")
            ELSE Clause(e.err = "IndexError", "C05.index-error")
      [] e.op = "der" ->
            LET x == Val(st, e.v) IN
            IF Len(x) > 0
            THEN Clause(e.err = "" /\ e.out = <<x[1]>>, "C05.dereference")
            ELSE Clause(e.err = "IndexError", "C05.dereference-error")
      [] e.op = "slc" -> Clause(e.out = Strided(Val(st, e.v), e.a, e.b, e.s), "C05.slice")
      [] e.op = "rep" ->
            LET w == View(st, e.v) IN
            Clause(e.out = SubSeq(st.data, 1, w.lo) \o e.x \o SubSeq(st.data, w.hi + 1, Len(st.data)),
                   "C05.replace")
      [] OTHER -> {"C05.unknown-event"}

Step(st, e) ==
    CASE e.op = "new" -> [st EXCEPT !.views = Append(@, SubView(View(st, e.v), e.a, e.b))]
      [] e.op = "adv" -> [st EXCEPT !.views = Append(@, SubView(View(st, e.v), <<1>>, <<>>))]
      [] e.op = "spl" -> [st EXCEPT !.views = @ \o <<SubView(View(st, e.v), <<>>, <<e.i>>),
                                                      SubView(View(st, e.v), <<e.i>>, <<>>)>>]
      [] OTHER -> st
=============================================================================
