-------------------------------- MODULE PossumKv --------------------------------
(* The cache as its users see it: keys, lengths, last use, a limit, a value held *)
(* by a snapshot. Every operation's effect is taken from PossumOps. TLC          *)
(* enumerates all states and all transitions within the bounds of a              *)
(* configuration and checks                                                      *)
(*  - the properties of the states and transitions (Inv, Steps), and             *)
(*  - that the code's way of getting there - which statements it gives SQLite in *)
(*    which order, triggers, the half-open key range of a prefix, the eviction   *)
(*    loop - always arrives at one of the results PossumOps allows (Refines).    *)
(* Every transition is printed; lib/kv.py drives the real code through them.     *)
EXTENDS PossumOps, Json

CONSTANTS Keys,      \* the keys there may be (sequences of bytes)
          Lens,      \* value lengths, in some unit
          Limits,    \* limits on the total, -1: none
          Pfx,       \* prefixes to list and delete
          Moves,     \* pairs of prefixes, or keys, to move
          Kinds,     \* operations
          MaxB,      \* writes, and renames, in one batch
          Order,     \* the order of last use is part of the state
          Old,       \* defects the code once had, to see that Refines and Ranged notice them
          Emit       \* print the transitions

VARIABLES rows,      \* key -> [len, id, f, off, lu]; f is the value's identity here, lu a rank
          max,       \* the limit in force
          held,      \* identity of the value a snapshot holds; 0: none, -1: one that is stored no more
          op         \* the last operation (not part of the state)
vars == <<rows, max, held, op>>

Rank(R, t) == Cardinality({u \in {R[k].lu : k \in DOMAIN R} : u <= t})
Norm(R) == [k \in DOMAIN R |-> [R[k] EXCEPT !.lu = IF Order THEN Rank(R, R[k].lu) ELSE 0]]
Now == 1 + Cardinality(Keys)          \* later than any rank

\* identities not in use
Used == {rows[k].f : k \in DOMAIN rows} \cup {held}
Fresh(j) == CHOOSE x \in 1..(2 * Cardinality(Keys) + 2 * MaxB + 4) :
              x \notin Used /\ Cardinality({y \in 1..x : y \notin Used}) = j
NewRow(n, j) == IF n = 0 THEN [len |-> 0, id |-> 0, f |-> -1, off |-> -1, lu |-> Now]
                ELSE [len |-> n, id |-> 0, f |-> Fresh(j), off |-> 0, lu |-> Now]
HeldX == [f |-> held, off |-> 0, len |-> IF \E k \in DOMAIN rows : rows[k].f = held
                                         THEN LET k == CHOOSE k \in DOMAIN rows : rows[k].f = held IN rows[k].len
                                         ELSE 1]
Writes(o) == [j \in 1..Len(o.ws) |-> [k |-> o.ws[j].k, r |-> NewRow(o.ws[j].n, j)]]
Renames(o) == [j \in 1..Len(o.rn) |-> [x |-> HeldX, k |-> o.rn[j]]]

(* ------------------------------------------------------ what may be done *)
Seqs(S, n) == UNION {[1..j -> S] : j \in 0..n}
Ops ==
     (IF "put" \in Kinds THEN {[o |-> "put", k |-> k, n |-> n] : k \in Keys, n \in Lens} ELSE {})
  \cup (IF "del" \in Kinds THEN {[o |-> "del", k |-> k] : k \in Keys} ELSE {})
  \cup (IF "get" \in Kinds THEN {[o |-> "get", k |-> k] : k \in Keys} ELSE {})
  \cup (IF "ls" \in Kinds THEN {[o |-> "ls", p |-> p] : p \in Pfx} ELSE {})
  \cup (IF "delp" \in Kinds THEN {[o |-> "delp", p |-> p] : p \in Pfx} ELSE {})
  \cup (IF "mvp" \in Kinds THEN {[o |-> "mvp", from |-> m[1], to |-> m[2]] : m \in Moves} ELSE {})
  \cup (IF "ren" \in Kinds THEN {[o |-> "ren", from |-> m[1], to |-> m[2]] : m \in Moves \cap (Keys \X Keys)} ELSE {})
  \cup (IF "limits" \in Kinds THEN {[o |-> "limits", max |-> m] : m \in Limits} ELSE {})
  \cup (IF "batch" \in Kinds
        THEN {[o |-> "batch", ws |-> ws, rn |-> rn] :
                ws \in Seqs([k : Keys, n : Lens], MaxB),
                rn \in IF held = 0 THEN {<<>>} ELSE Seqs(Keys, MaxB)}
        ELSE {})
  \cup (IF "hold" \in Kinds
        THEN IF held = 0 THEN {[o |-> "hold", k |-> k] : k \in {x \in DOMAIN rows : rows[x].len > 0}}
             ELSE {[o |-> "unhold"]}
        ELSE {})

(* results that leave the configuration's keys are not followed *)
Inside(R) == DOMAIN R \subseteq Keys
Within(o) == o.o # "mvp" \/ MoveClash(rows, o.from, o.to) \/ Inside(MovePrefix(rows, o.from, o.to))

(* ---------------------------------------- the results PossumOps allows *)
Results(o) ==
  CASE o.o = "put" -> {c.rows : c \in CommitResults(rows, <<[k |-> o.k, r |-> NewRow(o.n, 1)]>>, <<>>, Now, max)}
    [] o.o = "batch" -> {c.rows : c \in CommitResults(rows, Writes(o), Renames(o), Now, max)}
    [] o.o = "del" -> {Del(rows, {o.k})}
    [] o.o \in {"get", "hold"} -> {Touch(rows, o.k, Now)}
    [] o.o = "delp" -> {DelPrefix(rows, o.p)}
    [] o.o = "mvp" -> {IF MoveClash(rows, o.from, o.to) THEN rows ELSE MovePrefix(rows, o.from, o.to)}
    [] o.o = "ren" -> {IF o.from \notin DOMAIN rows \/ (o.to \in DOMAIN rows /\ o.to # o.from) THEN rows
                       ELSE RenameItem(rows, o.from, o.to)}
    [] o.o = "limits" -> EvictResults(rows, o.max)
    [] OTHER -> {rows}

HeldAfter(o, R) ==
  LET h == CASE o.o = "hold" -> rows[o.k].f
             [] o.o = "unhold" -> 0
             [] OTHER -> held
  IN IF h \in {0, -1} THEN h ELSE IF \E k \in DOMAIN R : R[k].f = h THEN h ELSE -1

(* ----------------------------------------------- how the code does it *)
(* m: the manifest: [rows, sum]; statements as given to SQLite, with triggers *)
SDelete(m, K) == [rows |-> Del(m.rows, K), sum |-> m.sum - SumLen(m.rows, K)]
SInsert(m, k, r) == [rows |-> Put(m.rows, k, r), sum |-> m.sum + r.len]      \* k is free
SRekey(m, k, nk) == [m EXCEPT !.rows = Put(Del(@, {k}), nk, @[k])]            \* nk is free, or k itself

RECURSIVE Lex(_, _)
Lex(a, b) == \/ a = <<>> /\ b # <<>>
             \/ a # <<>> /\ b # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Lex(Tail(a), Tail(b))))
\* the end of the range of a prefix: trailing 0xff bytes off, the last byte incremented
RECURSIVE IncOld(_)
IncOld(p) == IF p = <<>> THEN <<>>
             ELSE IF p[Len(p)] = 255 THEN LET q == IncOld(SubSeq(p, 1, Len(p) - 1)) IN IF q = <<>> THEN <<>> ELSE q \o <<0>>
             ELSE [p EXCEPT ![Len(p)] = @ + 1]
RECURSIVE RangeEnd(_)
RangeEnd(p) == IF "range" \in Old THEN IncOld(p)
               ELSE IF p = <<>> THEN <<>>
               ELSE IF p[Len(p)] = 255 THEN RangeEnd(SubSeq(p, 1, Len(p) - 1))
               ELSE [p EXCEPT ![Len(p)] = @ + 1]
InRange(p, k) == (k = p \/ Lex(p, k)) /\ (RangeEnd(p) = <<>> \/ Lex(k, RangeEnd(p)))
\* in the order of SQLite's index
RECURSIVE Ordered(_)
Ordered(K) == IF K = {} THEN <<>>
              ELSE LET k == CHOOSE k \in K : \A x \in K : k = x \/ Lex(k, x) IN <<k>> \o Ordered(K \ {k})

\* select the least recently used (any of them) until enough bytes are gone
RECURSIVE EvictLoop(_, _)
EvictLoop(m, need) ==
  IF need <= 0 THEN m
  ELSE LET K == DOMAIN m.rows
           k == CHOOSE k \in K : \A x \in K : m.rows[k].lu <= m.rows[x].lu
       IN EvictLoop(SDelete(m, {k}), need - m.rows[k].len)
RECURSIVE ApplyLimits(_, _)
ApplyLimits(m, lim) == IF lim < 0 \/ m.sum <= lim THEN m ELSE ApplyLimits(EvictLoop(m, m.sum - lim), lim)

RECURSIVE CWrites(_, _)
CWrites(m, ws) ==
  IF ws = <<>> THEN m
  ELSE LET w == Head(ws)
           d == IF w.k \in DOMAIN m.rows THEN SDelete(m, {w.k}) ELSE m
       IN CWrites(SInsert(d, w.k, [w.r EXCEPT !.lu = Now]), Tail(ws))
CRename(m0, x, nk) ==
  LET m == IF "rename" \in Old /\ nk \in DOMAIN m0.rows THEN SDelete(m0, {nk}) ELSE m0
      src == {k \in DOMAIN m.rows : m.rows[k].f = x.f /\ m.rows[k].off = x.off /\ m.rows[k].len > 0}
  IN IF src = {} THEN m
     ELSE LET k == CHOOSE k \in src : TRUE
          IN IF k = nk THEN m
             ELSE SRekey(IF nk \in DOMAIN m.rows THEN SDelete(m, {nk}) ELSE m, k, nk)
RECURSIVE CRenames(_, _)
CRenames(m, rs) == IF rs = <<>> THEN m ELSE CRenames(CRename(m, Head(rs).x, Head(rs).k), Tail(rs))
\* one item after the other, in key order; a collision with what is there at that moment undoes all
RECURSIVE CMove(_, _, _, _)
CMove(m, ks, from, to) ==
  IF ks = <<>> THEN [ok |-> TRUE, m |-> m]
  ELSE LET nk == to \o Drop(from, Head(ks))
       IN IF nk # Head(ks) /\ nk \in DOMAIN m.rows THEN [ok |-> FALSE, m |-> m]
          ELSE CMove(SRekey(m, Head(ks), nk), Tail(ks), from, to)
RECURSIVE CDeletes(_, _)
CDeletes(m, ks) == IF ks = <<>> THEN m ELSE CDeletes(SDelete(m, {Head(ks)}), Tail(ks))
InPrefix(m, p) == Ordered({k \in DOMAIN m.rows : InRange(p, k)})
M0 == [rows |-> rows, sum |-> Total(rows)]
Code(o) ==
  CASE o.o = "put" -> {ApplyLimits(CWrites(M0, <<[k |-> o.k, r |-> NewRow(o.n, 1)]>>), max)}
    [] o.o = "batch" -> {ApplyLimits(CRenames(CWrites(M0, Writes(o)), Renames(o)), max)}
    [] o.o = "del" -> {IF o.k \in DOMAIN rows THEN SDelete(M0, {o.k}) ELSE M0}
    [] o.o \in {"get", "hold"} -> {[M0 EXCEPT !.rows = Touch(@, o.k, Now)]}
    [] o.o = "delp" -> {CDeletes(M0, InPrefix(M0, o.p))}
    [] o.o = "mvp" -> LET r == CMove(M0, InPrefix(M0, o.from), o.from, o.to) IN {IF r.ok THEN r.m ELSE M0}
    [] o.o = "limits" -> {IF "limits" \in Old THEN M0 ELSE ApplyLimits(M0, o.max)}
    [] o.o = "ren" -> {IF o.from \notin DOMAIN rows \/ (o.to \in DOMAIN rows /\ o.to # o.from) THEN M0
                       ELSE SRekey(M0, o.from, o.to)}
    [] OTHER -> {M0}
\* A move may also collide with an item it has yet to move: the specification lets it then (it is refused as
\* a whole, as for any collision).
MayRefuse(o) == o.o = "mvp" /\ ~MoveFree(rows, o.from, o.to)
Refines ==
  \A o \in {x \in Ops : Within(x)} : \A m \in Code(o) :
     /\ m.rows \in Results(o) \/ (MayRefuse(o) /\ m.rows = rows)
     /\ m.sum = Total(m.rows)
\* C12: the range of a prefix holds exactly the keys with it
Ranged == \A p \in Pfx : {k \in DOMAIN rows : InRange(p, k)} = {x.k : x \in Listing(rows, p)}

(* --------------------------------------------------------------- behaviour *)
Init == rows = <<>> /\ max = -1 /\ held = 0 /\ op = [o |-> "none"]
Next == \E o \in {x \in Ops : Within(x)} :
          \E R \in Results(o) \cup (IF MayRefuse(o) THEN {rows} ELSE {}) :
             /\ op' = o
             /\ rows' = Norm(R)
             /\ max' = IF o.o = "limits" THEN o.max ELSE max
             /\ held' = HeldAfter(o, R)
Spec == Init /\ [][Next]_vars

View == <<{[k |-> k, n |-> rows[k].len, r |-> rows[k].lu, h |-> rows[k].f = held /\ held > 0] : k \in DOMAIN rows},
          max, IF held > 0 THEN 1 ELSE held>>
Printed == ~Emit \/ PrintT(ToJson([s |-> View, o |-> op', t |-> View']))

(* ---------------------------------------------------------------- properties *)
Inv == /\ Disjoint(rows)
       /\ Fits(rows, max) \/ op.o \notin {"put", "batch", "limits"}              \* C06
Steps == [][
   /\ (op'.o \in {"ls", "unhold"} => rows' = rows)
   /\ (op'.o \in {"put", "batch", "limits"} => Fits(rows', max'))
   \* C06: nothing goes if all fits; C07: nobody is evicted before somebody used less recently
   /\ (op'.o = "limits" => /\ (Fits(rows, max') => rows' = rows)
                           /\ \A k \in DOMAIN rows \ DOMAIN rows', j \in DOMAIN rows' : rows[k].lu <= rows[j].lu)
   /\ (op'.o = "put" => \A k \in DOMAIN rows \ DOMAIN rows', j \in (DOMAIN rows' \cap DOMAIN rows) \ {op'.k} :
                            rows[k].lu <= rows[j].lu)
   \* C07: only the key concerned moves to the front
   /\ (op'.o = "get" => \A k, j \in DOMAIN rows \ {op'.k} : (rows[k].lu < rows[j].lu) <=> (rows'[k].lu < rows'[j].lu))
   \* C11: moving neither loses nor makes anything
   /\ (op'.o \in {"mvp", "ren"} => /\ Cardinality(DOMAIN rows') = Cardinality(DOMAIN rows)
                                   /\ Total(rows') = Total(rows))
   /\ (op'.o = "delp" => \A k \in DOMAIN rows : k \in DOMAIN rows' <=> ~IsPfx(op'.p, k))
   ]_vars
===============================================================================
