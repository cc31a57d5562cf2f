------------------------------ MODULE PossumTrace ------------------------------
(* Judges recorded executions of the real code: every event must be explainable *)
(* as a step of the specified cache, from the state the earlier events led to.  *)
(* Events of many runs follow each other in one file; "reset" starts a run.     *)
EXTENDS PossumOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
INF == 2000000000

VARIABLES i, st
vars == <<i, st>>

\* An event that has been rejected already can be stepped over (its field "skip"): what comes after it is judged too.
Chk(c, why) == c \/ (PrintT(<<"WHY", i, why>>) /\ TLCGet(2))
All(S) == \A c \in S : c   \* (every member is evaluated, and reported)

NoW == [f |-> -1, off |-> -1, n |-> 0, id |-> -1, p |-> 0]

Fresh(e) == [mode |-> e.mode, bs |-> e.bs, rows |-> <<>>, hs |-> <<>>, bt |-> <<>>,
             vs |-> <<>>, rs |-> <<>>, sn |-> <<>>, op |-> <<>>, fl |-> <<>>,
             lk |-> {}, dead |-> {}, sd |-> <<>>, sf |-> {}, sc |-> <<>>,
             leak |-> FALSE, oth |-> "?", old |-> {}, mp |-> <<>>]

(* ------------------------------------------------------------ small helpers *)
Has(r, fld) == fld \in DOMAIN r
Pend(s, a) == s.op[a]
Set(fun, k, v) == [x \in DOMAIN fun \cup {k} |-> IF x = k THEN v ELSE fun[x]]
Rem(fun, K) == [x \in DOMAIN fun \ K |-> fun[x]]

WExt(w) == [f |-> w.f, off |-> w.off, len |-> w.n]
Ranges == {"put", "clonefrom", "vclone", "stage"}  \* ops whose own call writes a value
TxOps == {"put", "clonefrom", "commit", "del", "ren", "mvp", "delp", "limits", "get", "cread",
          "rbegin"}
PrepOps == {"bnew", "vbegin", "vwrite", "vlen", "stage", "brename", "bdrop", "vdrop",
            "sread", "sdrop", "sdropv", "sstat", "vclone"}

(* ------------------------------------------------- private copies of files *)
\* in use: opened by anything but a clean-up
Uses(s) == {x \in s.sf : ~x.cl}
\* process p has a private copy of the bytes of row r
Cloned(s, p, r) == \E x \in Uses(s) : x.p = p /\ x.vf = r.f /\ x.to >= r.off + r.len /\ x.f \in DOMAIN s.sc
InCleanup(s, a) == a \in DOMAIN s.op /\ Pend(s, a).op.o = "cleanup"
\* a snapshot is being made of these by somebody else
Making(s, a, d) == \E b \in DOMAIN s.op : b # a /\ d \in Pend(s, b).dirs
\* the directory's maker is gone, or it has been given up for dead
Abandoned(s, d) == s.sd[d].ab

(* ------------------------------------------------ the command line tool (C18) *)
Elems(q) == {q[j] : j \in 1..Len(q)}
MapOf(e) == LET F == Elems(e.files)
            IN [f \in {x.f : x \in F} |->
                  LET x == CHOOSE x \in F : x.f = f
                  IN [size |-> x.size, data |-> Elems(x.data), nz |-> Elems(x.nz)]]
Up(x, bs) == ((x + bs - 1) \div bs) * bs
Down(x, bs) == (x \div bs) * bs
WholeBlocks(x, bs) == <<Up(x[1], bs), Down(x[2], bs)>>
Meet(x, Y) == {<<Max2(x[1], y[1]), Min2(x[2], y[2])>> : y \in {z \in Y : Max2(x[1], z[1]) < Min2(x[2], z[2])}}
\* the ranges in Y without those in x
Without(Y, x) == {y \in UNION {{<<y[1], Min2(y[2], x[1])>>, <<Max2(y[1], x[2]), y[2]>>} : y \in Y} : y[1] < y[2]}
RECURSIVE WithoutAll(_, _)
WithoutAll(Y, X) == IF X = {} THEN Y ELSE LET x == CHOOSE x \in X : TRUE IN WithoutAll(Without(Y, x), X \ {x})
\* below each live value of a file, the range down to the value before it
Gaps(s, f) ==
  LET V == {x \in Exts(s.rows) : x.f = f}
      before(v) == LET E == {x.off + x.len : x \in {y \in V : y.off < v.off}}
                   IN IF E = {} THEN 0 ELSE CHOOSE t \in E : \A u \in E : u <= t
  IN {g \in {<<before(v), v.off>> : v \in V} : g[1] < g[2]}
\* dead bytes below a live value that still take up space
Missing(s, f) == UNION {Meet(g, s.mp[f].data) : g \in Gaps(s, f)}
Regions(m) == {<<"data", x[1], x[2]>> : x \in m.data}
         \cup {<<"hole", x[1], x[2]>> : x \in WithoutAll(IF m.size > 0 THEN {<<0, m.size>>} ELSE {}, m.data)}
LinesOf(v, f) == {l \in Elems(v.lines) : l.f = f}
\* every line once, and in ascending order within a file
InOrder(v) == /\ Cardinality(Elems(v.lines)) = Len(v.lines)
              /\ \A j, k \in 1..Len(v.lines) : (j < k /\ v.lines[j].f = v.lines[k].f) => v.lines[j].b <= v.lines[k].a
\* files of the cache the command is about
About(s, o) == {f \in DOMAIN s.mp : f \in DOMAIN s.fl /\ o.f \in {0, f}}
Alone(s, a) == DOMAIN s.op = {a}
HolesOk(s, o, v) ==
  /\ Chk(InOrder(v), "missing holes reported out of order")
  /\ Chk({l.f : l \in Elems(v.lines)} \subseteq About(s, o), "missing holes reported in other files")
  /\ \A f \in About(s, o) :
       LET want == {x \in Missing(s, f) : o.fr \/ WholeBlocks(x, s.bs)[1] < WholeBlocks(x, s.bs)[2]}
           got == {<<l.a, l.b>> : l \in LinesOf(v, f)}
       IN Chk(got = want, <<"missing holes reported wrongly", f, got, want>>)
\* the locks of others
Others1(s, p) == [s EXCEPT !.lk = {l \in @ : l.p # p}]
\* what a punching command has to punch: nothing in files somebody uses
Punchable(s, f) ==
  IF \E l \in s.lk : l.f = f THEN {}
  ELSE {x \in {WholeBlocks(x, s.bs) : x \in Missing(s, f)} : x[1] < x[2]}

(* Everything whose bytes must not change, tagged with its owner:               *)
(* live values, values being written or staged, values held by open snapshots.  *)
Moved(s, v) == \E a \in DOMAIN s.op : LET q == Pend(s, a) IN   \* its bytes are elsewhere already
                 q.op.o = "stage" /\ q.op.v = v /\ q.w.n = s.vs[v].n
Prot(s) ==
     {[x |-> e, o |-> <<"live">>] : e \in Exts(s.rows)}
  \cup {[x |-> WExt(s.vs[v]), o |-> <<"w", v>>] : v \in {y \in DOMAIN s.vs : s.vs[y].n > 0 /\ ~Moved(s, y)}}
  \cup {[x |-> WExt(Pend(s, a).w), o |-> <<"a", a>>] :
           a \in {y \in DOMAIN s.op : Pend(s, y).w.n > 0 /\ ~Pend(s, y).done}}
  \cup UNION {{[x |-> Ext(s.bt[b].ws[j].r), o |-> <<"staged">>] :
                 j \in {y \in 1..Len(s.bt[b].ws) : s.bt[b].ws[y].r.len > 0}} : b \in DOMAIN s.bt}
  \cup UNION {{[x |-> Ext(s.sn[q].vals[j]), o |-> <<"snap", q>>] :
                 j \in {y \in s.sn[q].held : s.sn[q].vals[y].len > 0
                                             /\ ~Cloned(s, s.sn[q].p, s.sn[q].vals[y])}} : q \in DOMAIN s.sn}
  \cup (IF s.mode = "clone" THEN {}
        ELSE UNION {{[x |-> Ext(r), o |-> <<"reading", a>>] :
                 r \in {y \in Pend(s, a).cap : y.len > 0}} :
                   a \in {z \in DOMAIN s.op : Pend(s, z).done /\ Pend(s, z).op.o \in {"get", "cread"}}})
Hit(s, x, own) == {p \in Prot(s) : Overlap(p.x, x) /\ p.o # own}

(* ------------------------------------------------------------------- locks *)
End(off, n) == IF n = 0 THEN INF ELSE off + n
Cut(l, a, b) == \* what remains of lock l after the range [a, b) is taken away
  {[l EXCEPT !.b = Min2(l.b, a)], [l EXCEPT !.a = Max2(l.a, b)]}
Nonempty(S) == {l \in S : l.a < l.b}
LockUpd(s, e) ==
  IF ~e.ok THEN s.lk
  ELSE LET a == e.off
           b == End(e.off, e.n)
           mine == {l \in s.lk : l.p = e.p /\ l.fd = e.fd}
           rest == s.lk \ mine
           cut == Nonempty(UNION {Cut(l, a, b) : l \in mine})
           new == IF e.t = "u" THEN {}
                  ELSE {[p |-> e.p, fd |-> e.fd, f |-> e.f, t |-> e.t, a |-> a, b |-> b]}
       IN rest \cup cut \cup new
\* [a, b) of file f is covered by locks in L (a handful at most)
RECURSIVE CoveredBy(_, _, _)
CoveredBy(L, a, b) ==
  a >= b \/ \E l \in L : l.a <= a /\ a < l.b /\ CoveredBy(L \ {l}, l.b, b)
WLocked(s, p, fd, a, b) == CoveredBy({l \in s.lk : l.p = p /\ l.fd = fd /\ l.t = "w"}, a, b)
\* A writer whose file was downgraded when other values in it were committed (whole files are locked, and an
\* exclusive lock would keep readers out) is still alone: nobody else gets an exclusive lock.
Held(s, p, fd, a, b) ==
  \/ WLocked(s, p, fd, a, b)
  \/ s.mode = "flock" /\ CoveredBy({l \in s.lk : l.p = p /\ l.fd = fd}, a, b)
PLocked(s, p, f, a, b) == CoveredBy({l \in s.lk : l.p = p /\ l.f = f /\ l.t = "w"}, a, b)

(* C03/C04 across processes: bytes a snapshot can still read stay locked *)
SnapLocked(s) ==
  \A q \in DOMAIN s.sn : \A j \in s.sn[q].held :
     LET r == s.sn[q].vals[j]
     IN r.len = 0 \/ Cloned(s, s.sn[q].p, r)
        \/ CoveredBy({l \in s.lk : l.p = s.sn[q].p /\ l.f = r.f}, r.off, r.off + r.len)

(* --------------------------------------------------------- applying effects *)
HMax(s, h) == s.hs[h].max
\* rows change to r; freed places are recorded if the handle reclaims
NewRows(s, h, r, gone) ==
  [s EXCEPT !.rows = r,
            !.dead = IF s.hs[h].hp THEN @ \cup gone ELSE @,
            !.hs[h].everhp = @ \/ (s.hs[h].hp /\ gone # {}),
            !.op = [a \in DOMAIN s.op |->
                      [s.op[a] EXCEPT !.seen = @ \cup {r}]]]
Simple(s, h, S) == {NewRows(s, h, r, Exts(s.rows) \ Exts(r)) : r \in S}

\* The states in which the effect of a's current operation has taken place.
Applied(s, a) ==
  LET p == Pend(s, a)
      o == p.op
      mark(S) == {[x EXCEPT !.op[a].done = TRUE] : x \in S}
      markcap(S, c) == {[x EXCEPT !.op[a].done = TRUE, !.op[a].cap = c] : x \in S}
  IN
  CASE o.o \in {"put", "clonefrom"} ->
         LET row == [len |-> p.w.n, id |-> o.id, f |-> p.w.f, off |-> p.w.off, lu |-> p.now]
         IN mark({NewRows(s, o.h, c.rows, c.gone) :
                    c \in CommitResults(s.rows, <<[k |-> o.k, r |-> row]>>, <<>>, p.now, HMax(s, o.h))})
    [] o.o = "commit" ->
         LET b == s.bt[o.b]
         IN {[x EXCEPT !.bt[o.b].ws = <<>>] : x \in
             mark({NewRows(s, b.h, c.rows, c.gone) :
                    c \in CommitResults(s.rows, b.ws, b.rn, p.now, HMax(s, b.h))})}
    [] o.o = "del" ->
         IF o.k \notin DOMAIN s.rows THEN {}
         ELSE markcap(Simple(s, o.h, MayEvict(Del(s.rows, {o.k}), HMax(s, o.h))), {s.rows[o.k]})
    [] o.o = "ren" ->
         IF o.from \notin DOMAIN s.rows \/ (o.to \in DOMAIN s.rows /\ o.to # o.from) THEN {}
         ELSE markcap(Simple(s, o.h, MayEvict(RenameItem(s.rows, o.from, o.to), HMax(s, o.h))),
                      {s.rows[o.from]})
    [] o.o = "mvp" ->
         IF MoveClash(s.rows, o.from, o.to) THEN {}
         ELSE mark(Simple(s, o.h, MayEvict(MovePrefix(s.rows, o.from, o.to), HMax(s, o.h))))
    [] o.o = "delp" ->
         mark(Simple(s, o.h, MayEvict(DelPrefix(s.rows, o.p), HMax(s, o.h))))
    [] o.o = "limits" ->
         mark(Simple(s, o.h, EvictResults(s.rows, o.max)))
    [] o.o \in {"get", "cread"} ->
         IF o.k \notin DOMAIN s.rows THEN {}
         ELSE LET t == Touch(s.rows, o.k, p.now)
              IN markcap(Simple(s, o.h, MayEvict(t, HMax(s, o.h))), {t[o.k]})
    [] o.o = "rbegin" ->
         LET r == s.rs[o.r]
             RECURSIVE tch(_, _)
             tch(rows, g) == IF g = <<>> THEN rows
                             ELSE tch(Touch(rows, Head(g).k, Head(g).row.lu), Tail(g))
             same == \A j \in 1..Len(r.got) :
                        /\ r.got[j].k \in DOMAIN s.rows
                        /\ [s.rows[r.got[j].k] EXCEPT !.lu = 0] = [r.got[j].row EXCEPT !.lu = 0]
         IN IF ~same THEN {}
            ELSE markcap(Simple(s, r.h, MayEvict(tch(s.rows, r.got), HMax(s, r.h))),
                         {r.got[j].row : j \in 1..Len(r.got)})
    [] OTHER -> {}

(* Every live value lies inside an existing file, and nothing overlaps. *)
InFiles(s) == \A k \in DOMAIN s.rows :
   LET r == s.rows[k] IN
   r.len = 0 \/ (r.f \in DOMAIN s.fl /\ s.fl[r.f].ex /\ r.off + r.len <= s.fl[r.f].len)
Sane(s) == Chk(Disjoint(s.rows), "live values overlap")
           /\ Chk(InFiles(s), "live value outside its file")
SaneApplied(s, a) == {x \in Applied(s, a) : Sane(x)}

(* ------------------------------------------------------------------ events *)
Call(s, e) ==
  LET o == e.op
      base == [op |-> o, now |-> e.now, p |-> e.p, done |-> FALSE, w |-> NoW, cap |-> {},
               n0 |-> 0, f0 |-> -1, seen |-> {s.rows}, flt |-> FALSE, dirs |-> {}, gone |-> {}, cc |-> FALSE]
      p == CASE o.o = "vwrite" -> [base EXCEPT !.n0 = s.vs[o.v].n]
             [] o.o = "commit" -> [base EXCEPT !.n0 = Len(s.bt[o.b].ws)]
             [] o.o = "cleanup" -> [base EXCEPT !.gone = {d \in DOMAIN s.sd : Abandoned(s, d)},
                                                !.cc = \E b \in DOMAIN s.op : Pend(s, b).op.o = "cleanup"]
             [] OTHER -> base
      s0 == IF o.o = "cleanup"
            THEN [s EXCEPT !.op = [b \in DOMAIN s.op |-> IF s.op[b].op.o = "cleanup"
                                                        THEN [s.op[b] EXCEPT !.cc = TRUE] ELSE s.op[b]]]
            ELSE s
      s1 == [s0 EXCEPT !.op = Set(@, e.a, p)]
  IN IF Has(o, "cli")       \* a run of the command line tool has a handle of its own
     THEN {[s1 EXCEPT !.hs = Set(@, o.h, [max |-> -1, hp |-> TRUE, everhp |-> FALSE, p |-> e.p, open |-> TRUE])]}
     ELSE
     {CASE o.o = "limits" -> [s1 EXCEPT !.hs[o.h].max = o.max, !.hs[o.h].hp = ~o.nohp]
        [] o.o = "sdrop"  -> [s1 EXCEPT !.sn[o.s].held = {}]
        [] o.o = "sdropv" -> [s1 EXCEPT !.sn[o.s].held = @ \ {o.i + 1}]
        [] o.o = "vdrop"  -> [s1 EXCEPT !.vs = Rem(@, {o.v})]
        [] o.o = "bdrop"  -> [s1 EXCEPT !.bt = Rem(@, {o.b})]
        [] o.o = "close"  -> [s1 EXCEPT !.hs[o.h].open = FALSE]
        [] OTHER -> s1}

\* the value the current operation of a writes to
CurW(s, a) == LET p == Pend(s, a) IN
   IF p.op.o = "vwrite" THEN s.vs[p.op.v] ELSE p.w
SetW(s, a, w) == LET p == Pend(s, a) IN
   IF p.op.o = "vwrite" THEN [s EXCEPT !.vs[p.op.v] = w] ELSE [s EXCEPT !.op[a].w = w]
Own(s, a) == LET p == Pend(s, a) IN
   IF p.op.o = "vwrite" THEN <<"w", p.op.v>> ELSE <<"a", a>>

Write(s, e) ==
  LET x == [f |-> e.f, off |-> e.off, len |-> e.n]
      w == CurW(s, e.a)
      ok == /\ Chk(e.a \in DOMAIN s.op /\ Pend(s, e.a).op.o \in Ranges \cup {"vwrite"},
                   "write outside of a write operation")
            /\ Chk(e.f \in DOMAIN s.fl /\ s.fl[e.f].ex, "write to a file that is not there")
            /\ Chk(e.off >= s.fl[e.f].len \/ Hit(s, x, Own(s, e.a)) = {}, "write over protected bytes")
            /\ Chk(w.n = 0 \/ (w.f = e.f /\ w.off + w.n = e.off), "value not contiguous")
            /\ Chk(Held(s, e.p, e.fd, e.off, e.off + e.n), "write without exclusive lock")
      w2 == IF w.n = 0 THEN [w EXCEPT !.f = e.f, !.off = e.off, !.n = e.n]
            ELSE [w EXCEPT !.n = @ + e.n]
      s2 == SetW(s, e.a, w2)
  IN IF ~ok THEN {}
     ELSE {[s2 EXCEPT !.fl[e.f].len = Max2(@, e.off + e.n),
                      !.dead = {d \in @ : ~Overlap(d, x)}]}

\* a handle's reclaimer does something only if there was something to reclaim for it
MayReclaim(s, e) == Chk(e.h = 0 \/ e.h \notin DOMAIN s.hs \/ s.hs[e.h].everhp, "space reclaimed though disabled")
Trunc(s, e) ==
  LET x == [f |-> e.f, off |-> e.n, len |-> INF]
      mine == e.a \in DOMAIN s.op /\ CurW(s, e.a).f = e.f
      own == IF mine THEN Own(s, e.a) ELSE <<"none">>
      w == IF mine THEN CurW(s, e.a) ELSE NoW
      ok == /\ Chk(Hit(s, x, own) = {}, "truncation destroys protected bytes")
            /\ MayReclaim(s, e)
            /\ Chk(~InCleanup(s, e.a), "snapshot directory clean-up touches a values file")
            /\ Chk(e.f \notin DOMAIN s.fl \/ s.fl[e.f].len <= e.n
                   \/ WLocked(s, e.p, e.fd, e.n, s.fl[e.f].len)
                   \/ (mine /\ Held(s, e.p, e.fd, e.n, s.fl[e.f].len)), "truncation without exclusive lock")
      s2 == IF mine /\ w.n > 0
            THEN SetW(s, e.a, IF e.n <= w.off THEN [w EXCEPT !.n = 0, !.f = -1, !.off = -1]
                              ELSE [w EXCEPT !.n = Min2(@, e.n - w.off)])
            ELSE s
  IN IF ~ok THEN {} ELSE {[s2 EXCEPT !.fl[e.f].len = e.n]}

Unlink(s, e) ==
  IF e.c = "S"
  THEN LET s2 == [s EXCEPT !.sc = Rem(@, {e.f})]
       IN IF /\ Chk(\A x \in Uses(s) : x.f = e.f => (x.p = e.p /\ ~InCleanup(s, e.a)),
                    "file of a snapshot directory removed while in use")
             /\ Chk(SnapLocked(s2), "file of a snapshot directory removed while its snapshot is in use")
             /\ Chk(~Making(s, e.a, e.d), "file of a snapshot directory removed while the snapshot is being made")
          THEN {s2} ELSE {}
  ELSE IF e.c # "V" THEN {s}
  ELSE LET x == [f |-> e.f, off |-> 0, len |-> INF]
           ok == /\ Chk(Hit(s, x, <<"none">>) = {}, "removal of a file with protected bytes")
                 /\ Chk(PLocked(s, e.p, e.f, 0, INF), "removal without exclusive lock")
                 /\ MayReclaim(s, e)
                 /\ Chk(~InCleanup(s, e.a), "snapshot directory clean-up removes a values file")
       IN IF ~ok THEN {} ELSE {[s EXCEPT !.fl[e.f].ex = FALSE, !.fl[e.f].len = 0,
                                            !.op = [b \in DOMAIN @ |-> IF @[b].op.o \in {"clholes", "clpunch"}
                                                                       THEN [@[b] EXCEPT !.cc = TRUE] ELSE @[b]]]}

Mkdir(s, e) ==
  LET s2 == [s EXCEPT !.sd = Set(@, e.d, [p |-> e.p, ab |-> e.p = 0])]
  IN {IF e.a \in DOMAIN s.op THEN [s2 EXCEPT !.op[e.a].dirs = @ \cup {e.d}] ELSE s2}
Rmdir(s, e) ==
  IF /\ Chk(\A x \in Uses(s) : x.d = e.d => (x.p = e.p /\ ~InCleanup(s, e.a)),
            "snapshot directory removed while in use")
     /\ Chk(~Making(s, e.a, e.d), "snapshot directory removed while the snapshot is being made")
  THEN {[s EXCEPT !.sd = Rem(@, {e.d})]} ELSE {}

Punch(s, e) ==
  LET x == [f |-> e.f, off |-> e.off, len |-> e.n]
      ok == /\ Chk(Hit(s, x, <<"none">>) = {}, "hole punched into protected bytes")
            /\ Chk(WLocked(s, e.p, e.fd, e.off, e.off + e.n), "hole punched without exclusive lock")
            /\ MayReclaim(s, e)
  IN IF ~ok THEN {} ELSE {s}

Open(s, e) ==
  IF e.c = "S"
  THEN {[s EXCEPT !.sf = @ \cup {[p |-> e.p, fd |-> e.fd, f |-> e.f, d |-> e.d, vf |-> e.vf, cl |-> InCleanup(s, e.a),
                                  to |-> IF e.f \in DOMAIN s.sc THEN s.sc[e.f].to ELSE 0]},
                  !.sc = IF e.f \in DOMAIN @ THEN @ ELSE Set(@, e.f, [d |-> e.d, to |-> 0])]}
  ELSE IF e.c # "V" THEN {s}
  ELSE IF e.f \notin DOMAIN s.fl \/ e.cr
       THEN {[s EXCEPT !.fl = Set(@, e.f, [len |-> e.n, ex |-> TRUE])]}
       ELSE {s}

Clone(s, e) ==
  IF e.c = "V"
  THEN LET s2 == SetW(s, e.a, [NoW EXCEPT !.f = IF e.n = 0 THEN -1 ELSE e.f,
                                          !.off = IF e.n = 0 THEN -1 ELSE 0, !.n = e.n])
       IN {[s2 EXCEPT !.fl = Set(@, e.f, [len |-> e.n, ex |-> TRUE])]}
  ELSE {[s EXCEPT !.sc = Set(@, e.f, [d |-> e.d, to |-> e.n])]}

Txe(s, e) ==
  IF e.a \in DOMAIN s.op /\ Pend(s, e.a).op.o \in TxOps /\ ~Pend(s, e.a).done
  THEN {s} \cup SaneApplied(s, e.a)
  ELSE {s}

Close(s, e) ==
  LET s2 == [s EXCEPT !.lk = {l \in @ : ~(l.p = e.p /\ l.fd = e.fd)},
                      !.sf = {x \in @ : ~(x.p = e.p /\ x.fd = e.fd)}]
  IN IF Chk(SnapLocked(s2), "bytes of an open snapshot left unlocked") THEN {s2} ELSE {}
Lock(s, e) ==
  LET s2 == [s EXCEPT !.lk = LockUpd(s, e)]
  IN IF Chk(SnapLocked(s2), "bytes of an open snapshot left unlocked") THEN {s2} ELSE {}

(* ------------------------------------------------------------------ returns *)
\* reading n bytes at pos of row r must have produced v
ReadOk(r, v, pos, want) ==
  LET n == IF pos >= r.len THEN 0 ELSE Min2(want, r.len - pos)
  IN /\ Chk(v.n = n, <<"read returned a wrong number of bytes, expected", n>>)
     /\ Chk(n = 0 \/ r.id = -99 \/ \E j \in 1..Len(v.ids) : v.ids[j] = r.id, "read returned wrong bytes")
     /\ Chk(v.clean, "read wrote outside the bytes it reported")
SourceFails(o) == o.o \in {"put", "vwrite"} /\ Has(o, "src") /\ o.src = "fail"
ItemSet(items) == {[k |-> items[j].k, len |-> items[j].len, lu |-> items[j].lu] : j \in 1..Len(items)}
ListOk(items, S, p) ==
  /\ Chk(Cardinality(ItemSet(items)) = Len(items), "key listed twice")
  /\ Chk(\E rows \in S : ItemSet(items) = Listing(rows, p), "wrong listing")

\* an error that is the specified answer of this operation in some state it saw
MustFail(rows, o) ==
  CASE o.o = "ren" -> o.from \notin DOMAIN rows \/ (o.to \in DOMAIN rows /\ o.to # o.from)
    [] o.o = "mvp" -> MoveClash(rows, o.from, o.to)
    [] o.o = "cread" -> o.k \notin DOMAIN rows
    [] OTHER -> SourceFails(o)
MayFail(rows, o) ==
  CASE o.o = "mvp" -> ~MoveFree(rows, o.from, o.to)
    [] o.o = "ren" -> o.from = o.to
    [] OTHER -> FALSE
\* the kind of error fits
KindFits(rows, o, err) ==
  CASE o.o = "ren" -> (err = "nokey") <=> (o.from \notin DOMAIN rows)
    [] o.o = "cread" -> err = "nokey"
    [] OTHER -> TRUE

\* the operation has returned: forget it
Fin(s, a) == [s EXCEPT !.op = Rem(@, {a})]

Ret(s0, e) ==
  LET a == e.a
      p0 == Pend(s0, a)
      o == p0.op
      v == e.res.v
      \* take effect now at the latest
      S == IF e.res.ok /\ o.o \in TxOps /\ ~p0.done THEN {s0} \cup SaneApplied(s0, a) ELSE {s0}
      needs == \* a successful return of this operation implies its effect
        CASE o.o \in {"del", "get"} -> v.len # -1
          [] o.o \in TxOps -> TRUE
          [] OTHER -> FALSE
      good(s) ==
        LET p == Pend(s, a)
            done == Fin(s, a)
            row == CHOOSE r \in p.cap : TRUE
        IN
        IF ~e.res.ok
        THEN IF /\ Chk(e.res.err # "panic", <<"panic", o.o>>)
                /\ Chk(~p.done \/ (p.flt /\ o.o = "cread"), "failed operation took effect")
                /\ Chk(p.flt \/ (p.cc /\ o.o \in {"clholes", "clpunch"})
                       \/ \E rows \in p.seen : MustFail(rows, o) \/ MayFail(rows, o),
                       <<"operation failed", o.o>>)
                /\ Chk(p.flt \/ p.cc \/ \E rows \in p.seen : (MustFail(rows, o) \/ MayFail(rows, o))
                                                     /\ KindFits(rows, o, e.res.err), "wrong kind of error")
                /\ Chk(o.o # "vwrite" \/ o.via \in {"write", "fd"} \/ p.flt \/ s.vs[o.v].n = p.n0,
                       "failed copy left bytes in the value")
             THEN {CASE o.o = "commit" -> [done EXCEPT !.bt = Rem(@, {o.b})]
                     [] o.o = "rbegin" -> [done EXCEPT !.rs = Rem(@, {o.r})]
                     [] o.o = "stage"  -> [done EXCEPT !.vs = Rem(@, {o.v})]
                     [] OTHER -> done}
             ELSE {}
        ELSE
        IF /\ Chk(p.done = needs, IF needs THEN <<"no effect explains the return of", o.o>>
                                  ELSE <<"effect without reason", o.o>>)
           /\ Chk(~SourceFails(o), <<"operation should have failed", o.o>>)
        THEN
        CASE o.o = "open" ->
               IF ~Chk(\A f \in s.old : ~s.fl[f].ex, "opening an outdated directory left old values files") THEN {}
               ELSE {[done EXCEPT !.hs = Set(@, o.h, [max |-> -1, hp |-> TRUE, everhp |-> FALSE,
                                                 p |-> e.p, open |-> TRUE]),
                             !.old = {}]}
          [] o.o \in {"put", "clonefrom"} ->
               IF /\ Chk(v.n = o.n, "write reported a wrong length")
                  /\ Chk(v.count = 1, "wrong number of writes reported")
                  /\ Chk(p.w.n = o.n, "value stored with a wrong length")
               THEN {done} ELSE {}
          [] o.o = "del" ->
               IF v.len = -1
               THEN IF Chk(\E rows \in p.seen : o.k \notin DOMAIN rows, "delete missed its key") THEN {done} ELSE {}
               ELSE IF v.len = -2 \/ (Chk(v.len = row.len /\ v.lu = row.lu, "wrong stat of deleted item"))
                    THEN {done} ELSE {}
          [] o.o = "ren" ->
               IF Chk(v.lu = row.lu, "rename reported a wrong time") THEN {done} ELSE {}
          [] o.o \in {"mvp", "delp", "pwait", "close", "sdropv", "vdrop", "bdrop", "limits"} -> {done}
          [] o.o = "cleanup" ->
               IF Chk(p.flt \/ p.cc \/ p.gone \cap DOMAIN s.sd = {}, "abandoned snapshot directory left behind")
               THEN {done} ELSE {}
          [] o.o = "get" ->
               IF v.len = -1
               THEN IF Chk((p.flt /\ o.s = 0) \/ \E rows \in p.seen : o.k \notin DOMAIN rows, "read missed its key")
                    THEN {done} ELSE {}
               ELSE IF Chk(v.len = row.len /\ v.lu = row.lu, <<"read reported a wrong length or time", row>>)
                    THEN LET s2 == IF o.s = 0 THEN done
                                   ELSE [done EXCEPT !.sn = Set(@, o.s,
                                     [vals |-> <<row>>, held |-> {1}, p |-> e.p, h |-> o.h, dirs |-> p.dirs])]
                         IN IF Chk(SnapLocked(s2), "snapshot handed out without lock") THEN {s2} ELSE {}
                    ELSE {}
          [] o.o = "cread" -> IF ReadOk(row, v, o.pos, o.n) THEN {done} ELSE {}
          [] o.o \in {"ls", "rls"} ->
               LET seen == IF o.o = "ls" THEN p.seen
                           ELSE LET g == s.rs[o.r].got
                                    RECURSIVE tch(_, _)
                                    tch(rows, q) == IF q = <<>> THEN rows
                                       ELSE tch(Touch(rows, Head(q).k, Head(q).row.lu), Tail(q))
                                IN {tch(s.rows, g)}
               IN IF ListOk(v.items, seen, o.p) THEN {done} ELSE {}
          [] o.o = "sum" ->
               IF Chk(\E rows \in p.seen : v.sum = Total(rows), "wrong total") THEN {done} ELSE {}
          [] o.o = "walk" ->
               LET got(t) == {v.entries[j].f : j \in {y \in 1..Len(v.entries) : v.entries[y].t = t}}
               IN IF DOMAIN s.op = {a} =>
                       /\ Chk(got("snapdir") = DOMAIN s.sd, "wrong snapshot directories listed")
                       /\ Chk(got("snapvalue") = DOMAIN s.sc, "wrong snapshot directory files listed")
                       /\ Chk(got("values") = {f \in DOMAIN s.fl : s.fl[f].ex}, "wrong values files listed")
                  THEN {done} ELSE {}
          [] o.o = "bnew" ->
               {[done EXCEPT !.bt = Set(@, o.b, [h |-> o.h, ws |-> <<>>, rn |-> <<>>, p |-> e.p])]}
          [] o.o = "vbegin" ->
               {[done EXCEPT !.vs = Set(@, o.v, [NoW EXCEPT !.id = 0, !.p = e.p])]}
          [] o.o = "vclone" ->
               IF Chk(p.w.n = o.n, "imported with a wrong length")
               THEN {[done EXCEPT !.vs = Set(@, o.v, [p.w EXCEPT !.id = o.id, !.p = e.p])]} ELSE {}
          [] o.o = "vwrite" ->
               IF /\ Chk(v.n = o.n, "write reported a wrong length")
                  /\ Chk(s.vs[o.v].n = p.n0 + o.n, "written bytes do not add up")
               THEN {[done EXCEPT !.vs[o.v].id = o.id]} ELSE {}
          [] o.o = "vlen" ->
               IF Chk(v.n = s.vs[o.v].n, "wrong value length") THEN {done} ELSE {}
          [] o.o = "stage" ->
               \* a value may be moved to another file when it is staged
               LET w0 == s.vs[o.v]
                   w == IF p.w.n > 0 THEN [p.w EXCEPT !.id = w0.id] ELSE w0
                   srow == [len |-> w.n, id |-> IF w.n = 0 THEN 0 ELSE w.id, f |-> w.f, off |-> w.off, lu |-> 0]
               IN IF ~Chk(w.n = w0.n, "value staged with another length") THEN {}
                  ELSE {[done EXCEPT !.vs = Rem(@, {o.v}),
                                !.bt[o.b].ws = Append(@, [k |-> o.k, r |-> srow])]}
          [] o.o = "brename" ->
               {[done EXCEPT !.bt[o.b].rn = Append(@, [x |-> Ext(s.sn[o.s].vals[o.i + 1]), k |-> o.k])]}
          [] o.o = "commit" ->
               IF Chk(v.count = -1 \/ v.count = p0.n0, "wrong number of writes reported")
               THEN {[done EXCEPT !.bt = Rem(@, {o.b})]} ELSE {}
          [] o.o = "rnew" ->
               {[done EXCEPT !.rs = Set(@, o.r, [h |-> o.h, got |-> <<>>, p |-> e.p])]}
          [] o.o = "radd" ->
               IF o.k \notin DOMAIN s.rows
               THEN IF Chk(v.len = -1, "found a key that is not there") THEN {done} ELSE {}
               ELSE LET r == [s.rows[o.k] EXCEPT !.lu = p.now]
                    IN IF Chk(v.len = r.len /\ v.lu = p.now, <<"reader reported a wrong length or time", r>>)
                       THEN {[done EXCEPT !.rs[o.r].got = Append(@, [k |-> o.k, row |-> r])]} ELSE {}
          [] o.o = "rbegin" ->
               LET g == s.rs[o.r].got
                   s2 == [done EXCEPT !.rs = Rem(@, {o.r}),
                            !.sn = Set(@, o.s, [vals |-> [j \in 1..Len(g) |-> g[j].row],
                                                held |-> 1..Len(g), p |-> e.p, h |-> s.rs[o.r].h, dirs |-> p.dirs])]
               IN IF Chk(SnapLocked(s2), "snapshot handed out without lock") THEN {s2} ELSE {}
          [] o.o = "rdrop" -> {[done EXCEPT !.rs = Rem(@, {o.r})]}
          [] o.o = "sread" ->
               LET r == s.sn[o.s].vals[o.i + 1]
               IN IF ReadOk(r, v, IF o.m = "at" THEN o.pos ELSE 0,
                            IF o.m \in {"at", "read"} THEN o.n ELSE INF)
                  THEN {done} ELSE {}
          [] o.o = "sstat" ->
               LET r == s.sn[o.s].vals[o.i + 1]
               IN IF Chk(v.len = r.len /\ v.lu = r.lu, "wrong stat of a snapshot value") THEN {done} ELSE {}
          [] o.o = "sdrop" -> {[done EXCEPT !.sn = Rem(@, {o.s})]}
          [] o.o = "clils" ->
               LET got == Elems(v.keys)
               IN IF /\ Chk(Cardinality(got) = Len(v.keys), "key listed twice")
                     /\ Chk(\E rows \in p.seen : got = {k \in DOMAIN rows : IsPfx(o.p, k)}, "wrong listing")
                  THEN {done} ELSE {}
          [] o.o = "cliinfo" -> {done}
          [] o.o = "clholes" -> IF ~Alone(s, a) \/ s.mp = <<>> \/ HolesOk(s, o, v) THEN {done} ELSE {}
          [] o.o = "clpunch" ->
               IF ~Alone(s, a) \/ s.mp = <<>> THEN {done}
               ELSE IF /\ Chk(InOrder(v), "holes punched out of order")
                       /\ Chk({l.f : l \in Elems(v.lines)} \subseteq About(s, o), "holes punched in other files")
                       /\ \A f \in About(s, o) :
                            LET got == {<<l.a, l.b>> : l \in LinesOf(v, f)}
                            IN Chk(got = Punchable(Others1(s, e.p), f), <<"wrong holes punched", f, got, Punchable(Others1(s, e.p), f)>>)
                    THEN {[done EXCEPT !.mp = [f \in DOMAIN @ |->
                             IF f \in About(s, o)
                             THEN [@[f] EXCEPT !.data = WithoutAll(@, Punchable(Others1(s, e.p), f))] ELSE @[f]]]}
                    ELSE {}
          [] o.o \in {"clshow", "regions"} ->
               IF ~Alone(s, a) \/ s.mp = <<>> THEN {done}
               ELSE IF /\ Chk(InOrder(v), "regions out of order")
                       /\ \A f \in Elems(o.fs) :
                            LET got == {<<l.t, l.a, l.b>> : l \in LinesOf(v, f)}
                            IN Chk(got = Regions(s.mp[f]), <<"wrong regions", f, got, Regions(s.mp[f])>>)
                       /\ Chk({l.f : l \in Elems(v.lines)} \subseteq Elems(o.fs), "regions of other files")
                    THEN {done} ELSE {}
          [] o.o = "clphole" ->
               \* (the kernel may or may not free a block that is partly beyond the end of the file)
               LET after(x) == [done EXCEPT !.mp[o.f].nz = Without(@, <<o.off, o.off + o.n>>),
                                            !.mp[o.f].data = IF WholeBlocks(x, s.bs)[1] < WholeBlocks(x, s.bs)[2]
                                                             THEN Without(@, WholeBlocks(x, s.bs)) ELSE @]
               IN {after(<<o.off, o.off + o.n>>)}
                  \cup (IF o.off + o.n >= s.mp[o.f].size THEN {after(<<o.off, Up(o.off + o.n, s.bs)>>)} ELSE {})
          [] o.o = "cllast" ->
               LET E == {x.off + x.len : x \in {y \in Exts(s.rows) : y.f = o.f /\ y.off + y.len <= o.off}}
                   want == IF E = {} THEN 0 ELSE CHOOSE t \in E : \A u \in E : u <= t
               IN IF Chk(~Alone(s, a) \/ v.n = want, <<"wrong last end offset", want>>) THEN {done} ELSE {}
          [] OTHER -> Chk(FALSE, <<"unknown operation", o.o>>)
        ELSE {}
  IN UNION {good(s) : s \in S}

(* ------------------------------------------------------ state observations *)
Map(s, e) == {[s EXCEPT !.mp = MapOf(e)]}
\* nothing else became of the files' space
Mapped(s, e) ==
  LET m == MapOf(e)
  IN IF Chk(s.mp = m, <<"space in files differs", {<<f, s.mp[f], IF f \in DOMAIN m THEN m[f] ELSE 0>> :
                           f \in {x \in DOMAIN s.mp : x \notin DOMAIN m \/ m[x] # s.mp[x]}}>>)
     THEN {[s EXCEPT !.mp = <<>>]} ELSE {}

\* the items as they were found, with the bytes they ought to have as far as that is known
Observed(s, e) ==
  LET R == {e.rows[j] : j \in 1..Len(e.rows)}
      staged == UNION {{s.bt[b].ws[j].r : j \in 1..Len(s.bt[b].ws)} : b \in DOMAIN s.bt}
      writing == {[f |-> Pend(s, a).w.f, off |-> Pend(s, a).w.off, len |-> Pend(s, a).w.n,
                   id |-> IF Has(Pend(s, a).op, "id") THEN Pend(s, a).op.id ELSE -99] : a \in DOMAIN s.op}
      cand == {s.rows[k] : k \in DOMAIN s.rows} \cup staged \cup writing
      id(x) == LET C == {c \in cand : c.f = x.f /\ c.off = x.off /\ c.len = x.len}
               IN IF x.len = 0 \/ C = {} THEN -99 ELSE (CHOOSE c \in C : TRUE).id
  IN [k \in {x.k : x \in R} |-> LET x == CHOOSE x \in R : x.k = k
                                IN [len |-> x.len, id |-> id(x), f |-> x.f, off |-> x.off, lu |-> x.lu]]

RECURSIVE Sizes(_)
Sizes(q) == IF q = <<>> THEN 0 ELSE Head(q).len + Sizes(Tail(q))
Audit(s, e) ==
  LET got == {e.rows[j] : j \in 1..Len(e.rows)}
      want == {[k |-> k, len |-> s.rows[k].len, f |-> s.rows[k].f, off |-> s.rows[k].off,
                lu |-> s.rows[k].lu] : k \in DOMAIN s.rows}
      obs == Observed(s, e)
  IN IF All({Chk(got = want, <<"manifest differs; missing", want \ got, "unexpected", got \ want>>),
             \* (whatever should be there)
             Chk(e.sum = Sizes(e.rows), <<"recorded total differs, expected", Sizes(e.rows)>>),
             Chk(Disjoint(obs), "live values overlap"),
             Chk(InFiles([s EXCEPT !.rows = obs]), "live value outside its file")})
     THEN {[s EXCEPT !.rows = IF TLCGet(2) THEN obs ELSE @]} ELSE {}

\* idle: whole blocks inside freed places are gone (unless a snapshot is in the way)
Space(s, e) ==
  LET busy == {s.sn[q].vals[j].f : <<q, j>> \in {<<q, j>> \in (DOMAIN s.sn) \X (1..20) :
                  j \in s.sn[q].held}}
      info(f) == CHOOSE x \in {e.files[j] : j \in 1..Len(e.files)} : x.f = f
      there(f) == \E j \in 1..Len(e.files) : e.files[j].f = f
      \* allocated block starts bs*b inside d?
      bad(d) == there(d.f) /\ d.f \notin busy /\
                LET al == info(d.f).alloc
                    lo == ((d.off + s.bs - 1) \div s.bs) * s.bs
                    hi == ((d.off + d.len) \div s.bs) * s.bs
                IN lo < hi /\ \E j \in 1..Len(al) : al[j][1] < hi /\ al[j][2] > lo
      \* nothing can have kept a reclaimer from doing its work, so there is none left
      clear == DOMAIN s.bt = {} /\ DOMAIN s.vs = {} /\ DOMAIN s.rs = {} /\ \A q \in DOMAIN s.sn : s.sn[q].held = {}
  IN IF Chk(\A d \in s.dead : ~bad(d), <<"space not given back", {d \in s.dead : bad(d)}>>)
     THEN {IF clear THEN [s EXCEPT !.hs = [h \in DOMAIN @ |-> [@[h] EXCEPT !.everhp = FALSE]]] ELSE s} ELSE {}

(* Nobody is in the middle of anything: the snapshot directories there are. *)
Dirs(s, e) ==
  LET there == {e.dirs[j] : j \in 1..Len(e.dirs)}
      hs(p) == Cardinality({h \in DOMAIN s.hs : s.hs[h].p = p /\ s.hs[h].open})
      sns(p, vf) == Cardinality({q \in DOMAIN s.sn : s.sn[q].p = p
                                  /\ \E j \in s.sn[q].held : s.sn[q].vals[j].f = vf})
      ok == /\ Chk(there = DOMAIN s.sd, <<"snapshot directories differ", there, DOMAIN s.sd>>)
            /\ Chk(s.leak \/ \A d \in DOMAIN s.sd : Abandoned(s, d) \/ \E x \in Uses(s) : x.d = d,
                   "snapshot directory left though unused")
            /\ Chk(\A x \in Uses(s) : x.f \in DOMAIN s.sc, "snapshot directory file gone though used")
            /\ Chk(\A x \in Uses(s) : Cardinality({y \in Uses(s) : y.p = x.p /\ y.vf = x.vf})
                                          <= hs(x.p) + sns(x.p, x.vf),
                   "snapshot directory file kept open though unused")
  IN IF s.op # <<>> \/ ok THEN {s} ELSE {}
\* other items of the directory
Others(s, e) ==
  IF Chk(s.oth = "?" \/ s.oth = e.h \/ e.set, "snapshot directory clean-up or opening touched other items")
  THEN {[s EXCEPT !.oth = e.h]} ELSE {}

Blocked(s, e) ==
  LET o == Pend(s, e.a).op
      others == {a \in DOMAIN s.op : a # e.a /\ Pend(s, a).op.o \notin PrepOps}
  IN IF /\ Chk(o.o \notin PrepOps, <<"preparing had to wait", o.o>>)
        /\ Chk(s.rs # <<>> \/ others # {}, <<"operation waits for nobody's transaction", o.o>>)
     THEN {s} ELSE {}

\* process p is gone: its unfinished operations happened or not
RECURSIVE Settle(_, _)
Settle(S, A) ==
  IF A = {} THEN S
  ELSE LET a == CHOOSE a \in A : TRUE
           T == UNION {{s} \cup (IF Pend(s, a).op.o \in TxOps /\ ~Pend(s, a).done
                                 THEN SaneApplied(s, a) ELSE {}) : s \in S}
       IN Settle(T, A \ {a})
Crash(s, e) ==
  LET mine == {a \in DOMAIN s.op : Pend(s, a).p = e.p}
      S == Settle({s}, mine)
      hs == {h \in DOMAIN s.hs : s.hs[h].p = e.p}
  IN {[x EXCEPT !.op = Rem(@, mine), !.hs = Rem(@, hs),
                !.bt = Rem(@, {b \in DOMAIN s.bt : s.bt[b].p = e.p}),
                !.vs = Rem(@, {v \in DOMAIN s.vs : s.vs[v].p = e.p}),
                !.rs = Rem(@, {r \in DOMAIN s.rs : s.rs[r].p = e.p}),
                !.sn = Rem(@, {q \in DOMAIN s.sn : s.sn[q].p = e.p}),
                !.lk = {l \in @ : l.p # e.p},
                !.sf = {y \in @ : y.p # e.p},
                !.sd = [d \in DOMAIN @ |-> IF @[d].p = e.p THEN [@[d] EXCEPT !.ab = TRUE] ELSE @[d]],
                !.dead = {}] : x \in S}

\* a system call failed. An operation it belongs to may report an error; a reclaimer tries again
\* later, as long as its handle is open.
Fault(s, e) ==
  IF e.a \in DOMAIN s.op THEN {[s EXCEPT !.op[e.a].flt = TRUE, !.leak = @ \/ e.call \in {"unlink", "rmdir"}
                                                           \/ (e.call = "open" /\ e.cls = "D")]}
  ELSE IF e.h # 0 /\ (e.h \notin DOMAIN s.hs \/ ~s.hs[e.h].open) THEN {[s EXCEPT !.dead = {}]}
  ELSE {s}

Step1(s, e) ==
  CASE e.e = "reset" -> {Fresh(e)}
    [] e.e = "call" -> Call(s, e)
    [] e.e = "ret" -> Ret(s, e)
    [] e.e = "write" -> Write(s, e)
    [] e.e = "trunc" -> Trunc(s, e)
    [] e.e = "unlink" -> Unlink(s, e)
    [] e.e = "punch" -> Punch(s, e)
    [] e.e = "open" -> Open(s, e)
    [] e.e = "close" -> Close(s, e)
    [] e.e = "lock" -> Lock(s, e)
    [] e.e = "clone" -> Clone(s, e)
    [] e.e = "txe" -> Txe(s, e)
    [] e.e = "txb" -> {s}
    [] e.e = "fault" -> Fault(s, e)
    [] e.e = "audit" -> Audit(s, e)
    [] e.e = "space" -> Space(s, e)
    [] e.e = "blocked" -> Blocked(s, e)
    [] e.e = "mkdir" -> Mkdir(s, e)
    [] e.e = "rmdir" -> Rmdir(s, e)
    [] e.e = "dirs" -> Dirs(s, e)
    [] e.e = "map" -> Map(s, e)
    [] e.e = "mapped" -> Mapped(s, e)
    [] e.e = "others" -> Others(s, e)
    [] e.e = "old" -> {[s EXCEPT !.rows = <<>>, !.old = {e.files[j] : j \in 1..Len(e.files)}]}
    [] e.e = "crash" -> Crash(s, e)
    [] e.e = "hang" -> IF Chk(FALSE, <<"hang", e.a>>) THEN {s} ELSE {}
    [] e.e = "panic" -> IF Chk(FALSE, <<"panic", e.a>>) THEN {s} ELSE {}
    [] e.e = "bad" -> IF Chk(FALSE, <<"bad", e.what>>) THEN {s} ELSE {}
    [] OTHER -> {s}

\* (a return that is stepped over leaves what was found afterwards, if anybody looked)
Step(s, e) ==
  IF Has(e, "skip")
  THEN IF ~TLCSet(2, TRUE) THEN {}
       ELSE {IF e.e = "ret" /\ Has(e, "rows") THEN [x EXCEPT !.rows = Observed(s, e)] ELSE x : x \in Step1(s, e)}
  ELSE IF ~TLCSet(2, FALSE) THEN {} ELSE Step1(s, e)

Init == i = 0 /\ st = Fresh([mode |-> "seg", bs |-> 4096])
Next == /\ i < Len(Trace)
        /\ \E s2 \in Step(st, Trace[i + 1]) : st' = s2
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars

\* keep the farthest point reached, for the report
Reach == TLCSet(1, Max2(i, TLCGet(1)))
ASSUME TLCSet(1, 0) /\ TLCSet(2, FALSE)
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
            /\ TLCGet(1) = Len(Trace)
===============================================================================
