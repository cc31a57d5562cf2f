------------------------------ MODULE PossumStore ------------------------------
(* How values files are written, read, given up and reclaimed (segment locks, the *)
(* only way on this machine's file systems): the code's own steps, one action per *)
(* system call that another thread or process can notice. Writers append to files *)
(* whose tail they have locked; readers lock the bytes of what they read while    *)
(* they hold the manifest; a reclaimer per handle looks at the manifest, maybe    *)
(* long before it gets to locking and punching; the command line tool punches     *)
(* what nobody told a reclaimer about. Checked: no byte anybody relies on is ever *)
(* touched (C03, C04, C09), nobody waits forever or panics (C14), and once all is *)
(* quiet the space is back (C05).                                                 *)
(* Lengths are in units, Block units to a block of the file system.               *)
(* lib/store.py drives the real code through this model's behaviours.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Files, Handles, Size, Block, Keys, Lens,
          Actors,        \* actor -> [h |-> handle, k |-> kinds of operations, n |-> how many]
          Start,         \* sequence of [h, k, n]: values there are to begin with, written by h
          MaxV,          \* values per batch
          Old,           \* defects the code once had
          Emit

VARIABLES man,    \* the manifest: set of [k, f, o, n, id]
          wl,     \* who holds the manifest's write lock
          fl,     \* file -> [st, size, data]
          refs,   \* file -> who has the writer's open file
          lk,     \* file -> units that open file has locked; Size: the tail
          pool,   \* handle -> files it may write to
          pc,     \* what everybody is doing
          left,   \* operations left to do
          pun,    \* handle -> reclaimer
          open,   \* handle -> still open
          nid,    \* next value's identity
          dead,   \* places that a reclaimer was told about
          bad,    \* what went wrong
          op      \* the last step (not part of the state)
vars == <<man, wl, fl, refs, lk, pool, pc, left, pun, open, nid, dead, bad, op>>
state == <<man, wl, fl, refs, lk, pool, pc, left, pun, open, dead, bad>>

Units == 0..(Size - 1)
All == 0..Size
Rng(a, b) == {u \in Units : a <= u /\ u < b}
Of(x) == Rng(x.o, x.o + x.n)
Ceil(u) == ((u + Block - 1) \div Block) * Block
Floor(u) == (u \div Block) * Block
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Elems(s) == {s[j] : j \in 1..Len(s)}
Loc(r) == [f |-> r.f, o |-> r.o, n |-> r.n]

NoVal == [f |-> 0, o |-> 0, n |-> 0, id |-> 0]
Idle == [st |-> "idle"]
PIdle == [st |-> "idle", q |-> {}, pend |-> {}]
None == 0 - 1
HN(h) == "P" \o ToString(h)

\* ------------------------------------------------------------- locks held
ReaderLocks == UNION {{[w |-> a, f |-> x.f, u |-> Of(x), x |-> FALSE] : x \in pc[a].locked} :
                         a \in {b \in DOMAIN pc : pc[b].st \in {"read", "rdone", "snap"}}}
WriterLocks == {[w |-> "o", f |-> f, u |-> lk[f], x |-> TRUE] : f \in {g \in Files : refs[g] # {}}}
PunchLocks == {[w |-> HN(h), f |-> pun[h].cur.f, u |-> pun[h].u, x |-> TRUE] :
                  h \in {g \in Handles : pun[g].st \in {"max", "re", "act", "lock", "punch", "close"}}}
ToolLocks == {[w |-> a, f |-> pc[a].f, u |-> All, x |-> TRUE] : a \in {b \in DOMAIN pc : pc[b].st \in {"tview", "tpunch", "tclose"}}}
Locks == ReaderLocks \cup WriterLocks \cup PunchLocks \cup ToolLocks
Free(w, f, U, excl) == \A l \in Locks : l.f = f /\ (l.u \cap U) # {} => l.w = w \/ (~excl /\ ~l.x)

\* ---------------------------------------------------------------- writing
Go(a, s) == op' = [a |-> a, s |-> s, f |-> 0, k |-> "", n |-> 0]
Go3(a, s, f, k, n) == op' = [a |-> a, s |-> s, f |-> f, k |-> k, n |-> n]
CanStart(a, k) == pc[a].st = "idle" /\ left[a] > 0 /\ k \in Actors[a].k /\ (k = "tool" \/ open[Actors[a].h])
Started(a) == left' = [left EXCEPT ![a] = @ - 1]

Batch0 == [st |-> "batch", files |-> {}, pend |-> <<>>, lent |-> {}, val |-> NoVal, made |-> 0]
\* a value is begun: in a file of the batch, of the handle, or a new one
WNew(a) ==
  LET h == Actors[a].h
      p == IF pc[a].st = "idle" THEN Batch0 ELSE pc[a]
      take(f, q) == pc' = [pc EXCEPT ![a] = [q EXCEPT !.val = [f |-> f, o |-> fl'[f].size, n |-> 0, id |-> nid],
                                                       !.made = @ + 1]]
  IN /\ CanStart(a, "put") \/ (pc[a].st = "batch" /\ pc[a].val = NoVal /\ pc[a].made < MaxV)
     /\ IF pc[a].st = "idle" THEN Started(a) ELSE UNCHANGED left
     /\ nid' = nid + 1
     /\ UNCHANGED <<man, wl, pun, open, dead, bad>>
     /\ IF p.files # {}
        THEN \E f \in p.files :
               /\ Go3(a, "new", f, "", 0)
               /\ refs' = [refs EXCEPT ![f] = (@ \ {<<"batch", a>>}) \cup {<<"val", a>>}
                                              \cup (IF "lent" \in Old THEN {} ELSE {<<"lent", a>>})]
               /\ UNCHANGED <<fl, lk, pool>>
               /\ take(f, [p EXCEPT !.files = @ \ {f}, !.lent = @ \cup {f}])
        ELSE IF pool[h] # {}
        THEN \E f \in pool[h] :
               /\ Go3(a, "new", f, "", 0)
               /\ pool' = [pool EXCEPT ![h] = @ \ {f}]
               /\ refs' = [refs EXCEPT ![f] = {<<"val", a>>}]
               /\ UNCHANGED <<fl, lk>>
               /\ take(f, p)
        ELSE LET f == MinOf({g \in Files : fl[g].st = "none"})
             IN /\ \E g \in Files : fl[g].st = "none"
                /\ Go3(a, "new", f, "", 0)
                /\ fl' = [fl EXCEPT ![f].st = "on"]
                /\ lk' = [lk EXCEPT ![f] = All]
                /\ refs' = [refs EXCEPT ![f] = {<<"val", a>>}]
                /\ UNCHANGED pool
                /\ take(f, p)
WWrite(a, n) ==
  /\ pc[a].st = "batch" /\ pc[a].val # NoVal /\ pc[a].val.n = 0
  /\ LET f == pc[a].val.f
     IN /\ fl[f].size + n <= Size
        /\ fl' = [fl EXCEPT ![f].size = @ + n,
                            ![f].data = [u \in Units |-> IF u \in Rng(fl[f].size, fl[f].size + n) THEN pc[a].val.id ELSE @[u]]]
        /\ Go3(a, "write", f, "", n)
  /\ pc' = [pc EXCEPT ![a].val.n = n]
  /\ UNCHANGED <<man, wl, refs, lk, pool, left, pun, open, nid, dead, bad>>
WStage(a, k) ==
  /\ pc[a].st = "batch" /\ pc[a].val.n > 0
  /\ LET v == pc[a].val
     IN /\ pc' = [pc EXCEPT ![a].val = NoVal, ![a].files = @ \cup {v.f}, ![a].lent = @ \ {v.f},
                            ![a].pend = Append(@, [k |-> k, f |-> v.f, o |-> v.o, n |-> v.n, id |-> v.id])]
        /\ refs' = [refs EXCEPT ![v.f] = {<<"batch", a>>}]
        /\ Go3(a, "stage", v.f, k, v.n)
  /\ UNCHANGED <<man, wl, fl, lk, pool, left, pun, open, nid, dead, bad>>
\* staged with another batch than it was begun with: moved to one of its files if others have values in that one
WGive(a, b, k) ==
  LET h == Actors[b].h
      v == pc[a].val
      p == pc[b]
      mv == v.f \in pc[a].lent /\ "split" \notin Old
      new == {g \in Files : fl[g].st = "none"}
      dst == IF ~mv THEN {v.f} ELSE IF p.files # {} THEN p.files ELSE IF pool[h] # {} THEN pool[h]
             ELSE IF new = {} THEN {} ELSE {MinOf(new)}
  IN /\ a # b /\ pc[a].st = "batch" /\ v.n > 0 /\ p.st = "batch" /\ p.val = NoVal /\ "give" \in Actors[a].k
     /\ \E g \in dst :
          LET o == IF mv THEN fl[g].size ELSE v.o
          IN /\ o + v.n <= Size
             /\ fl' = IF mv THEN [fl EXCEPT ![g].st = "on", ![g].size = o + v.n,
                                    ![g].data = [u \in Units |-> IF u \in Rng(o, o + v.n) THEN v.id ELSE @[u]]]
                      ELSE fl
             /\ lk' = IF mv /\ g \in new THEN [lk EXCEPT ![g] = All] ELSE lk
             /\ pool' = [pool EXCEPT ![h] = @ \ {g}]
             /\ refs' = IF mv THEN [refs EXCEPT ![v.f] = @ \ {<<"val", a>>}, ![g] = {<<"batch", b>>}]
                        ELSE [refs EXCEPT ![g] = (@ \ {<<"val", a>>}) \cup {<<"batch", b>>}]
             /\ pc' = [pc EXCEPT ![a].val = NoVal,
                                 ![b].files = @ \cup {g},
                                 ![b].pend = Append(@, [k |-> k, f |-> g, o |-> o, n |-> v.n, id |-> v.id])]
             /\ op' = [a |-> a, s |-> "give", f |-> g, k |-> k, n |-> v.n, b |-> b]
  /\ UNCHANGED <<man, wl, left, pun, open, nid, dead, bad>>
WDrop(a) ==
  /\ pc[a].st = "batch" /\ pc[a].val # NoVal /\ pc[a].val.n > 0 /\ "drop" \in Actors[a].k
  /\ pc' = [pc EXCEPT ![a].val = NoVal]
  /\ refs' = [refs EXCEPT ![pc[a].val.f] = @ \ {<<"val", a>>}]
  /\ Go3(a, "drop", pc[a].val.f, "", 0)
  /\ UNCHANGED <<man, wl, fl, lk, pool, left, pun, open, nid, dead, bad>>
Trimmed(p) == [f \in Files |->
                 IF f \in p.files THEN lk[f] \ Rng(0, fl[f].size)
                 ELSE IF f \in p.lent THEN lk[f] \ UNION {Of(x) : x \in {y \in Elems(p.pend) : y.f = f}}
                 ELSE lk[f]]
\* commit lets go of the values' bytes ...
WTrim(a) ==
  /\ pc[a].st = "batch" /\ pc[a].val = NoVal
  /\ lk' = IF "trim" \in Old THEN lk ELSE Trimmed(pc[a])
  /\ pc' = [pc EXCEPT ![a].st = "trimmed"]
  /\ Go(a, "trim")
  /\ UNCHANGED <<man, wl, fl, refs, pool, left, pun, open, nid, dead, bad>>
\* ... gets the manifest ...
WBegin(a) ==
  /\ pc[a].st = "trimmed" /\ wl = ""
  /\ wl' = a
  /\ pc' = [pc EXCEPT ![a].st = "tx"]
  /\ Go(a, "begin")
  /\ UNCHANGED <<man, fl, refs, lk, pool, left, pun, open, nid, dead, bad>>
RECURSIVE Puts(_, _, _)
Puts(M, D, ws) ==
  IF ws = <<>> THEN <<M, D>>
  ELSE LET o == {r \in M : r.k = Head(ws).k}
       IN Puts((M \ o) \cup {Head(ws)}, D \cup {Loc(r) : r \in o}, Tail(ws))
\* ... writes and lets go of it ...
WCommit(a) ==
  /\ pc[a].st = "tx"
  /\ LET r == Puts(man, {}, pc[a].pend)
     IN /\ man' = r[1]
        /\ pc' = [pc EXCEPT ![a] = [st |-> "sent", files |-> pc[a].files, lent |-> pc[a].lent, del |-> r[2], pend |-> pc[a].pend]]
  /\ wl' = ""
  /\ Go(a, "commit")
  /\ UNCHANGED <<fl, refs, lk, pool, left, pun, open, nid, dead, bad>>
\* ... and tells the reclaimer ...
WSend(a) ==
  LET h == Actors[a].h
      p == pc[a]
  IN /\ p.st = "sent"
     /\ pun' = [pun EXCEPT ![h].q = @ \cup p.del]
     /\ dead' = dead \cup p.del
     /\ pc' = [pc EXCEPT ![a].st = "told"]
     /\ Go(a, "send")
     /\ UNCHANGED <<man, wl, fl, refs, lk, pool, left, open, nid, bad>>
\* ... and, when no snapshot is being made with the handle, the files go back to the handle
Mutex(h) == \E b \in DOMAIN Actors : Actors[b].h = h /\ pc[b].st = "read" /\ pc[b].m
WRet(a) ==
  LET h == Actors[a].h
      p == pc[a]
  IN /\ p.st = "told" /\ ~Mutex(h)
     /\ pool' = [pool EXCEPT ![h] = @ \cup p.files]
     /\ refs' = [f \in Files |-> IF f \in p.files THEN {<<"pool", HN(h)>>}
                                 ELSE IF f \in p.lent THEN refs[f] \ {<<"lent", a>>} ELSE refs[f]]
     /\ lk' = IF "trim" \in Old THEN Trimmed(p) ELSE lk
     /\ pc' = [pc EXCEPT ![a] = Idle]
     /\ Go(a, "ret")
     /\ UNCHANGED <<man, wl, fl, left, pun, open, nid, dead, bad>>
\* --------------------------------------------------------------- deleting
Del(a, k) ==
  /\ CanStart(a, "del") /\ wl = ""
  /\ \E r \in man : r.k = k /\ man' = man \ {r} /\ pc' = [pc EXCEPT ![a] = [st |-> "dsent", del |-> {Loc(r)}]]
  /\ Started(a) /\ Go3(a, "del", 0, k, 0)
  /\ UNCHANGED <<wl, fl, refs, lk, pool, pun, open, nid, dead, bad>>
DSend(a) ==
  /\ pc[a].st = "dsent"
  /\ pun' = [pun EXCEPT ![Actors[a].h].q = @ \cup pc[a].del]
  /\ dead' = dead \cup pc[a].del
  /\ pc' = [pc EXCEPT ![a] = Idle]
  /\ Go(a, "dsend")
  /\ UNCHANGED <<man, wl, fl, refs, lk, pool, left, open, nid, bad>>
\* ---------------------------------------------------------------- reading
RBegin(a, K) ==
  /\ CanStart(a, "read") /\ wl = "" /\ \E r \in man : r.k \in K
  /\ wl' = a
  /\ pc' = [pc EXCEPT ![a] = [st |-> "read", want |-> {r \in man : r.k \in K}, locked |-> {}, m |-> FALSE]]
  /\ Started(a)
  /\ op' = [a |-> a, s |-> "rbegin", f |-> 0, k |-> IF Cardinality(K) = 1 THEN CHOOSE k \in K : TRUE ELSE "", n |-> 0]
  /\ UNCHANGED <<man, fl, refs, lk, pool, pun, open, nid, dead, bad>>
RMutex(a) ==
  /\ pc[a].st = "read" /\ ~Mutex(Actors[a].h)
  /\ pc' = [pc EXCEPT ![a].m = TRUE]
  /\ Go(a, "rmutex")
  /\ UNCHANGED <<man, wl, fl, refs, lk, pool, left, pun, open, nid, dead, bad>>
RLock(a) ==
  /\ pc[a].st = "read" /\ pc[a].m
  /\ \E r \in pc[a].want :
       /\ IF fl[r.f].st # "on"
          THEN bad' = bad \cup {"a reader's file is gone"} /\ UNCHANGED pc
          ELSE /\ Free(a, r.f, Of(r), FALSE) \/ "nowait" \in Old
               /\ bad' = IF Free(a, r.f, Of(r), FALSE) THEN bad ELSE bad \cup {"a reader can't lock"}
               /\ pc' = [pc EXCEPT ![a].want = @ \ {r}, ![a].locked = @ \cup {r},
                                   ![a].st = IF pc[a].want = {r} THEN "rdone" ELSE "read"]
       /\ Go3(a, "rlock", r.f, r.k, 0)
  /\ UNCHANGED <<man, wl, fl, refs, lk, pool, left, pun, open, nid, dead>>
RCommit(a) ==
  /\ pc[a].st = "rdone" /\ wl' = ""
  /\ pc' = [pc EXCEPT ![a].st = "snap"]
  /\ Go(a, "rcommit")
  /\ UNCHANGED <<man, fl, refs, lk, pool, left, pun, open, nid, dead, bad>>
RDrop(a) ==
  /\ pc[a].st = "snap"
  /\ pc' = [pc EXCEPT ![a] = Idle]
  /\ Go(a, "rdrop")
  /\ UNCHANGED <<man, wl, fl, refs, lk, pool, left, pun, open, nid, dead, bad>>
\* ---------------------------------------------------------------- closing
Close(a) ==
  LET h == Actors[a].h
  IN /\ CanStart(a, "close")
     /\ \A b \in DOMAIN Actors : Actors[b].h = h => pc[b].st \in {"idle", "snap", "tview", "tpunch", "tclose", "tmax"}
     /\ \A b \in DOMAIN Actors : b # a /\ Actors[b].h = h /\ Actors[b].k # {"tool"} => left[b] = 0
     /\ open' = [open EXCEPT ![h] = FALSE]
     /\ pool' = [pool EXCEPT ![h] = {}]
     /\ refs' = [f \in Files |-> refs[f] \ {<<"pool", HN(h)>>}]
     /\ Started(a) /\ Go(a, "close")
     /\ UNCHANGED <<man, wl, fl, lk, pc, pun, nid, dead, bad>>

\* ------------------------------------------------------------- reclaiming
Next_(M, f, min) == LET S == {r.o : r \in {x \in M : x.f = f /\ x.o >= min}} IN IF S = {} THEN None ELSE MinOf(S)
LastEnd(M, f, o) == LET S == {r.o + r.n : r \in {x \in M : x.f = f /\ x.o + x.n <= o}} IN IF S = {} THEN 0 ELSE MaxOf(S)
Keep == <<man, wl, refs, lk, pool, pc, left, open, nid, dead, bad>>
NoView == {NoVal}
\* what it was told and what it could not do yet
PTake(h) ==
  LET p == pun[h]
  IN /\ p.st = "idle" /\ p.q \cup p.pend # {}
     /\ pun' = [pun EXCEPT ![h] = [st |-> "next", q |-> {}, pend |-> {}, todo |-> p.pend \cup p.q, view |-> NoView, u |-> {}]]
     /\ Go(HN(h), "ptake")
     /\ UNCHANGED fl /\ UNCHANGED Keep
\* what it finds about v in the manifest as it was when it first looked
Looked(p, v, M) ==
  LET o == Ceil(LastEnd(M, v.f, v.o))
      nx == Next_(M, v.f, v.o + v.n)
  IN [st |-> IF nx = None THEN "max" ELSE "lock", q |-> p.q, pend |-> p.pend, todo |-> p.todo \ {v}, view |-> M,
      cur |-> v, o |-> o, e |-> IF nx = None THEN Floor(v.o + v.n) ELSE Floor(nx), u |-> {}]
POpen(h) ==
  LET p == pun[h]
  IN /\ p.st = "next" /\ p.todo # {}
     /\ \E v \in p.todo :
          /\ Go3(HN(h), "popen", v.f, "", v.o)
          /\ pun' = IF fl[v.f].st # "on" THEN [pun EXCEPT ![h].todo = @ \ {v}]
                    ELSE IF p.view # NoView THEN [pun EXCEPT ![h] = Looked(p, v, p.view)]
                    ELSE [pun EXCEPT ![h] = [st |-> "view", q |-> p.q, pend |-> p.pend, todo |-> p.todo, view |-> p.view,
                                             cur |-> v, u |-> {}]]
     /\ UNCHANGED fl /\ UNCHANGED Keep
\* (only then, the first time)
PView(h) ==
  LET p == pun[h]
  IN /\ p.st = "view"
     /\ pun' = [pun EXCEPT ![h] = Looked(p, p.cur, man)]
     /\ Go3(HN(h), "pview", p.cur.f, "", 0)
     /\ UNCHANGED fl /\ UNCHANGED Keep
PMax(h) ==
  LET p == pun[h]
      f == p.cur.f
      can == Free(HN(h), f, All, TRUE)
  IN /\ p.st = "max"
     /\ pun' = IF can THEN [pun EXCEPT ![h].st = IF "recheck" \in Old THEN "act" ELSE "re", ![h].u = All]
               ELSE [pun EXCEPT ![h].st = "lock"]
     /\ Go3(HN(h), "pmax", f, "", IF can THEN 1 ELSE 0)
     /\ UNCHANGED fl /\ UNCHANGED Keep
PRe(h) ==
  LET p == pun[h]
      nx == Next_(man, p.cur.f, p.cur.o + p.cur.n)
  IN /\ p.st = "re"
     /\ pun' = [pun EXCEPT ![h].st = IF nx = None THEN "act" ELSE "lock", ![h].e = IF nx = None THEN @ ELSE Floor(nx)]
     /\ Go(HN(h), "pre")
     /\ UNCHANGED fl /\ UNCHANGED Keep
Done(p) == [st |-> "next", q |-> p.q, pend |-> p.pend, todo |-> p.todo, view |-> p.view, u |-> {}]
PAct(h) ==
  LET p == pun[h]
      f == p.cur.f
  IN /\ p.st = "act"
     /\ fl' = IF p.o = 0 THEN [fl EXCEPT ![f].st = "gone"]
              ELSE [fl EXCEPT ![f].size = p.o, ![f].data = [u \in Units |-> IF u >= p.o THEN 0 ELSE @[u]]]
     /\ pun' = [pun EXCEPT ![h] = Done(p)]
     /\ Go3(HN(h), IF p.o = 0 THEN "punlink" ELSE "ptrunc", f, "", p.o)
     /\ UNCHANGED Keep
PLock(h) ==
  LET p == pun[h]
      U == Rng(p.o, p.e)
      can == Free(HN(h), p.cur.f, U, TRUE)
  IN /\ p.st = "lock"
     /\ pun' = IF p.e <= p.o THEN [pun EXCEPT ![h] = Done(p)]
               ELSE IF can THEN [pun EXCEPT ![h].st = "punch", ![h].u = @ \cup U]
               ELSE [pun EXCEPT ![h] = [Done(p) EXCEPT !.pend = @ \cup {p.cur}]]
     /\ Go3(HN(h), IF p.e <= p.o THEN "pskip" ELSE "plock", p.cur.f, "", IF can THEN 1 ELSE 0)
     /\ UNCHANGED fl /\ UNCHANGED Keep
PPunch(h) ==
  LET p == pun[h]
  IN /\ p.st = "punch"
     /\ fl' = [fl EXCEPT ![p.cur.f].data = [u \in Units |-> IF u \in Rng(p.o, p.e) THEN 0 ELSE @[u]]]
     /\ pun' = [pun EXCEPT ![h].st = "close"]
     /\ Go3(HN(h), "ppunch", p.cur.f, "", p.o)
     /\ UNCHANGED Keep
PClose(h) ==
  /\ pun[h].st = "close"
  /\ pun' = [pun EXCEPT ![h] = Done(pun[h])]
  /\ Go3(HN(h), "pclose", pun[h].cur.f, "", 0)
  /\ UNCHANGED fl /\ UNCHANGED Keep
PEnd(h) ==
  LET p == pun[h]
  IN /\ p.st = "next" /\ p.todo = {}
     /\ pun' = [pun EXCEPT ![h] = [st |-> "idle", q |-> p.q, pend |-> p.pend]]
     /\ Go(HN(h), "pend")
     /\ UNCHANGED fl /\ UNCHANGED Keep

\* --------------------------------------------------- the command line tool
KeepT == <<man, wl, refs, lk, pool, pun, open, nid, dead, bad>>
TOpen(a) ==
  /\ CanStart(a, "tool")
  /\ \E f \in Files : /\ fl[f].st = "on"
                      /\ pc' = [pc EXCEPT ![a] = [st |-> "tmax", f |-> f, view |-> man]]
                      /\ Go3(a, "topen", f, "", 0)
  /\ Started(a) /\ UNCHANGED fl /\ UNCHANGED KeepT
TMax(a) ==
  LET f == pc[a].f
  IN /\ pc[a].st = "tmax"
     /\ pc' = IF Free(a, f, All, TRUE) THEN [pc EXCEPT ![a].st = "tview"] ELSE [pc EXCEPT ![a] = Idle]
     /\ Go3(a, "tmax", f, "", IF Free(a, f, All, TRUE) THEN 1 ELSE 0)
     /\ UNCHANGED <<fl, left>> /\ UNCHANGED KeepT
TView(a) ==
  /\ pc[a].st = "tview"
  /\ pc' = [pc EXCEPT ![a].st = "tpunch", ![a].view = IF "toolview" \in Old THEN @ ELSE man]
  /\ Go3(a, "tview", pc[a].f, "", 0)
  /\ UNCHANGED <<fl, left>> /\ UNCHANGED KeepT
\* whole blocks below the last value that no value reaches into
Gaps(M, f) ==
  LET V == {r \in M : r.f = f}
      top == IF V = {} THEN 0 ELSE MaxOf({r.o + r.n : r \in V})
  IN {u \in Units : /\ Ceil(Floor(u) + Block) <= top
                    /\ Rng(Floor(u), Floor(u) + Block) \cap UNION {Of(r) : r \in V} = {}}
TPunch(a) ==
  /\ pc[a].st = "tpunch"
  /\ fl' = [fl EXCEPT ![pc[a].f].data = [u \in Units |-> IF u \in Gaps(pc[a].view, pc[a].f) THEN 0 ELSE @[u]]]
  /\ pc' = [pc EXCEPT ![a].st = "tclose"]
  /\ Go3(a, "tpunch", pc[a].f, "", 0)
  /\ UNCHANGED left /\ UNCHANGED KeepT
TClose(a) ==
  /\ pc[a].st = "tclose"
  /\ pc' = [pc EXCEPT ![a] = Idle]
  /\ Go3(a, "tclose", pc[a].f, "", 0)
  /\ UNCHANGED <<fl, left>> /\ UNCHANGED KeepT

\* --------------------------------------------------------------- behaviour
RECURSIVE Begin(_, _)
Begin(s, j) ==     \* s: [man, fl, pool]
  IF j > Len(Start) THEN s
  ELSE LET x == Start[j]
           f == x.h                       \* every handle has written one file
           o == s.fl[f].size
           d == [u \in Units |-> IF u \in Rng(o, o + x.n) THEN j ELSE s.fl[f].data[u]]
       IN Begin([s EXCEPT !.man = @ \cup {[k |-> x.k, f |-> f, o |-> o, n |-> x.n, id |-> j]},
                          !.fl[f] = [st |-> "on", size |-> o + x.n, data |-> d]], j + 1)
S0 == Begin([man |-> {}, fl |-> [f \in Files |-> [st |-> "none", size |-> 0, data |-> [u \in Units |-> 0]]]], 1)
Has(h) == S0.fl[h].st = "on"
Init ==
  /\ man = S0.man /\ wl = "" /\ fl = S0.fl
  /\ pool = [h \in Handles |-> IF Has(h) THEN {h} ELSE {}]
  /\ refs = [f \in Files |-> IF f \in Handles /\ Has(f) THEN {<<"pool", HN(f)>>} ELSE {}]
  /\ lk = [f \in Files |-> All \ Rng(0, S0.fl[f].size)]
  /\ pc = [a \in DOMAIN Actors |-> Idle]
  /\ left = [a \in DOMAIN Actors |-> Actors[a].n]
  /\ pun = [h \in Handles |-> PIdle]
  /\ open = [h \in Handles |-> TRUE]
  /\ nid = Len(Start) + 1
  /\ dead = {} /\ bad = {}
  /\ op = [a |-> "", s |-> "", f |-> 0, k |-> "", n |-> 0]

Act(a) == \/ WNew(a) \/ (\E n \in Lens : WWrite(a, n)) \/ (\E k \in Keys : WStage(a, k)) \/ WDrop(a)
          \/ (\E b \in DOMAIN Actors, k \in Keys : WGive(a, b, k))
          \/ WTrim(a) \/ WBegin(a) \/ WCommit(a) \/ WSend(a) \/ WRet(a)
          \/ (\E k \in Keys : Del(a, k)) \/ DSend(a)
          \/ (\E K \in {{k} : k \in Keys} \cup {Keys} : RBegin(a, K)) \/ RMutex(a) \/ RLock(a) \/ RCommit(a) \/ RDrop(a)
          \/ Close(a)
          \/ TOpen(a) \/ TMax(a) \/ TView(a) \/ TPunch(a) \/ TClose(a)
Punch(h) == PTake(h) \/ POpen(h) \/ PView(h) \/ PMax(h) \/ PRe(h) \/ PAct(h) \/ PLock(h) \/ PPunch(h) \/ PClose(h) \/ PEnd(h)

\* operations there is no way to begin any more (no such key, no file left, handle closed) don't count
Stuck(a) == pc[a].st = "idle" /\ ~ENABLED Act(a)
Quiet == /\ \A a \in DOMAIN Actors : pc[a].st = "idle"
         /\ \A h \in Handles : pun[h].st = "idle" /\ pun[h].q = {} /\ pun[h].pend = {}
\* nothing more will happen
Over == Quiet /\ UNCHANGED vars
Next == (\E a \in DOMAIN Actors : Act(a)) \/ (\E h \in Handles : Punch(h)) \/ Over
Spec == Init /\ [][Next]_vars
Fair == Spec /\ (\A a \in DOMAIN Actors : WF_vars(Act(a))) /\ (\A h \in Handles : WF_vars(Punch(h)))

View == state
Printed == ~Emit \/ op'.s = "" \/ PrintT(ToJson([s |-> TLCFP(state), o |-> op', t |-> TLCFP(state')]))

(* -------------------------------------------------------------- properties *)
Whole(x, there) == /\ there => fl[x.f].st = "on"
                   /\ \A u \in Of(x) : u < fl[x.f].size /\ fl[x.f].data[u] = x.id
\* being written, staged, or on the way into the manifest
Pending == UNION {CASE pc[a].st \in {"batch", "trimmed", "tx"} ->
                         Elems(pc[a].pend) \cup (IF pc[a].st = "batch" /\ pc[a].val.n > 0
                                                 THEN {[k |-> "", f |-> pc[a].val.f, o |-> pc[a].val.o, n |-> pc[a].val.n,
                                                        id |-> pc[a].val.id]} ELSE {})
                    [] OTHER -> {} : a \in DOMAIN Actors}
Held == UNION {IF pc[a].st \in {"rdone", "snap", "read"} THEN pc[a].locked ELSE {} : a \in DOMAIN Actors}
Live == \A r \in man : Whole(r, TRUE)                                   \* C04, C01
Staged == \A r \in Pending : Whole(r, TRUE)                             \* C04, C09
Snaps == \A r \in Held : Whole(r, FALSE)                                \* C03, C04
Apart == \A r, q \in man \cup Pending : r.id # q.id /\ r.f = q.f => Of(r) \cap Of(q) = {}   \* C09
NoBad == bad = {}                                                       \* C14
\* one writer per file; what it has locked is its own
OneWriter == \A f \in Files : refs[f] # {} =>
                \E a \in DOMAIN Actors \cup {HN(h) : h \in Handles} : \A x \in refs[f] : x[2] = a
\* C05: whole blocks inside freed places are free, once reclaimers are idle and nobody is in the way
Given == Quiet => \A d \in dead : fl[d.f].st # "on" \/ \A u \in Of(d) :
            Rng(Floor(u), Floor(u) + Block) \subseteq Of(d) => (u >= fl[d.f].size \/ fl[d.f].data[u] = 0)
Ends == <>[]Quiet                                                       \* C05, C14
===============================================================================
