------------------------------- MODULE PossumOps -------------------------------
(* What every operation of the cache does to the manifest, as pure operators.   *)
(* Shared by the API model (PossumKv), the implementation-shaped model          *)
(* (PossumStore) and the judge of recorded executions (PossumTrace).            *)
(*                                                                              *)
(* rows : key -> [len, id, f, off, lu]   the live items. A key is a sequence of *)
(*   bytes; id names the content; (f, off) is the place of the bytes, (-1, -1)  *)
(*   for a value of length zero; lu is the last-use time.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

IsPfx(p, k) == Len(p) <= Len(k) /\ \A j \in 1..Len(p) : p[j] = k[j]
Drop(p, k) == SubSeq(k, Len(p) + 1, Len(k))

RECURSIVE SumLen(_, _)
SumLen(rows, K) == IF K = {} THEN 0
                   ELSE LET k == CHOOSE k \in K : TRUE
                        IN rows[k].len + SumLen(rows, K \ {k})
Total(rows) == SumLen(rows, DOMAIN rows)

Put(rows, k, r) == [x \in DOMAIN rows \cup {k} |-> IF x = k THEN r ELSE rows[x]]
Del(rows, K) == [x \in DOMAIN rows \ K |-> rows[x]]
Touch(rows, k, t) == IF k \in DOMAIN rows THEN [rows EXCEPT ![k].lu = t] ELSE rows

(* The place of a row, as an extent. *)
Ext(r) == [f |-> r.f, off |-> r.off, len |-> r.len]
Exts(rows) == {Ext(rows[k]) : k \in {x \in DOMAIN rows : rows[x].len > 0}}
Overlap(a, b) == a.f = b.f /\ a.off < b.off + b.len /\ b.off < a.off + a.len

(* C09: live values never overlap and zero-length values have no place *)
Disjoint(rows) ==
  \A k, m \in DOMAIN rows :
     /\ (rows[k].len = 0) <=> (rows[k].f = -1 /\ rows[k].off = -1)
     /\ (k # m /\ rows[k].len > 0 /\ rows[m].len > 0) => ~Overlap(Ext(rows[k]), Ext(rows[m]))

(* C06, C07: eviction to at most max: strictly in order of last use, ties in any *)
(* order, stopping as soon as the rest fits. A set: ties may leave a choice.     *)
Fits(rows, max) == max < 0 \/ Total(rows) <= max
EvictResults(rows, max) ==
  IF Fits(rows, max) THEN {rows}
  ELSE LET need == Total(rows) - max
           K == DOMAIN rows
           upto(t) == {k \in K : rows[k].lu <= t}
           lus == {rows[k].lu : k \in K}
           L == CHOOSE t \in lus : /\ SumLen(rows, upto(t)) >= need
                                   /\ \A u \in lus : u < t => SumLen(rows, upto(u)) < need
           below == {k \in K : rows[k].lu < L}
           grp == {k \in K : rows[k].lu = L}
           base == SumLen(rows, below)
       IN {Del(rows, below \cup T) : T \in
             {T \in SUBSET grp : /\ base + SumLen(rows, T) >= need
                                 /\ \E e \in T : base + SumLen(rows, T \ {e}) < need}}
(* operations that may, but need not, enforce the limit on the way *)
MayEvict(rows, max) == {rows} \cup EvictResults(rows, max)

(* Staged writes, in order; the last one for a key wins. Accumulates the rows and *)
(* the places that were freed on the way. w = [k, r]                              *)
RECURSIVE ApplyWrites(_, _, _)
ApplyWrites(acc, ws, t) ==
  IF ws = <<>> THEN acc
  ELSE LET w == Head(ws)
           old == IF w.k \in DOMAIN acc.rows /\ acc.rows[w.k].len > 0
                  THEN {Ext(acc.rows[w.k])} ELSE {}
       IN ApplyWrites([rows |-> Put(acc.rows, w.k, [w.r EXCEPT !.lu = t]),
                       gone |-> acc.gone \cup old], Tail(ws), t)

(* Renaming a value obtained from a read, by its place. n = [x (an extent), k]. *)
RenameValue(rows, x, nk) ==
  LET src == {k \in DOMAIN rows : rows[k].len > 0 /\ Ext(rows[k]) = x}
  IN IF x.len = 0 \/ src = {} \/ nk \in src THEN rows
     ELSE LET k == CHOOSE k \in src : TRUE
          IN Put(Del(rows, {k}), nk, rows[k])
RECURSIVE ApplyRenames(_, _)
ApplyRenames(rows, rs) ==
  IF rs = <<>> THEN rows
  ELSE ApplyRenames(RenameValue(rows, Head(rs).x, Head(rs).k), Tail(rs))

(* A commit of staged writes ws and renames rn at time t under limit max *)
CommitResults(rows, ws, rn, t, max) ==
  LET w == ApplyWrites([rows |-> rows, gone |-> {}], ws, t)
      r1 == ApplyRenames(w.rows, rn)
  IN {[rows |-> r2, gone |-> (w.gone \cup Exts(w.rows) \cup Exts(rows)) \ Exts(r2)] :
        r2 \in EvictResults(r1, max)}

(* rename_item *)
RenameItem(rows, from, to) ==
  IF from = to THEN rows ELSE Put(Del(rows, {from}), to, rows[from])

(* move_prefix: all or nothing *)
MoveClash(rows, from, to) ==
  LET M == {k \in DOMAIN rows : IsPfx(from, k)}
  IN \E k \in M : LET n == to \o Drop(from, k) IN n \in DOMAIN rows \ M
(* every new key is free beforehand: then the move has no reason to fail *)
MoveFree(rows, from, to) ==
  \A k \in DOMAIN rows : IsPfx(from, k) => (to \o Drop(from, k)) \notin DOMAIN rows
MovePrefix(rows, from, to) ==
  LET M == {k \in DOMAIN rows : IsPfx(from, k)}
      N == {to \o Drop(from, k) : k \in M}
  IN [x \in (DOMAIN rows \ M) \cup N |->
        IF x \in N THEN rows[from \o Drop(to, x)] ELSE rows[x]]
DelPrefix(rows, p) == Del(rows, {k \in DOMAIN rows : IsPfx(p, k)})

(* C12 *)
Listing(rows, p) == {[k |-> k, len |-> rows[k].len, lu |-> rows[k].lu] :
                        k \in {x \in DOMAIN rows : IsPfx(p, x)}}
===============================================================================
