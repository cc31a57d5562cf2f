------------------------------- MODULE PossumClone -------------------------------
(* Snapshots made by cloning values files (on file systems that can), the directories *)
(* the clones are in, the handles' caches of clones, and the clean-up of what others   *)
(* left behind: the code's own steps, one action per call that others can notice.      *)
(* Checked: clones are there while used, and gone once nobody uses them; clean-up      *)
(* removes all that is abandoned and nothing else (C17); what a snapshot captured is   *)
(* what its clones contain, also when they come from the cache (C03).                  *)
(* lib/clones.py drives the real code through this model's behaviours.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Handles,       \* the handle h writes to file h
          Size, Keys, Ndirs,
          Actors,        \* actor -> [h |-> handle, k |-> kinds of operations, n |-> how many]
          Start,         \* sequence of [h, k, n]: values there are to begin with, written by h
          Kills,         \* handles whose process may die
          Old            \* defects the code once had

VARIABLES man,    \* the manifest: set of [k, f, o, n, id]
          wl,     \* who holds the manifest's write lock
          data,   \* file -> contents
          size,   \* file -> its length
          dirs,   \* directory -> "none", "on", "gone"
          cf,     \* directory -> clones in it
          cdat,   \* directory -> file -> contents of the clone
          clen,   \* directory -> file -> how much of the clone counts
          refs,   \* directory -> file -> who uses the clone (which is then open and locked)
          cache,  \* handle -> file -> directory of the clone it has; 0: none
          xl,     \* clone that a clean-up has locked
          pc, left, open, orphan, nid, bad,
          op      \* the last step (not part of the state)
vars == <<man, wl, data, size, dirs, cf, cdat, clen, refs, cache, xl, pc, left, open, orphan, nid, bad, op>>
state == <<man, wl, data, size, dirs, cf, cdat, clen, refs, cache, xl, pc, left, open, orphan, bad>>

Files == Handles
Dirs == 1..Ndirs
Units == 0..(Size - 1)
Rng(a, b) == {u \in Units : a <= u /\ u < b}
Of(x) == Rng(x.o, x.o + x.n)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
End(M, f) == LET S == {r.o + r.n : r \in {x \in M : x.f = f}} IN IF S = {} THEN 0 ELSE MaxOf(S)
NoClone == [d |-> 0, f |-> 0]
Idle == [st |-> "idle", rm |-> 0]
H(a) == Actors[a].h

Go(a, s) == op' = [a |-> a, s |-> s, d |-> 0, f |-> 0, k |-> "", n |-> 0]
Go4(a, s, d, f, k, n) == op' = [a |-> a, s |-> s, d |-> d, f |-> f, k |-> k, n |-> n]
CanStart(a, k) == pc[a].st = "idle" /\ left[a] > 0 /\ k \in Actors[a].k /\ open[H(a)]
Started(a) == left' = [left EXCEPT ![a] = @ - 1]
Making(d) == {a \in DOMAIN Actors : pc[a].st = "read" /\ pc[a].d = d}
Users(r, d) == UNION {r[d][f] : f \in Files}
\* the clones c that w lets go of: the rest, and the directory to remove if it was the last one
Without(c, w) == [refs EXCEPT ![c.d][c.f] = @ \ {w}]
ToRemove(c, w) == IF Users(Without(c, w), c.d) = {} /\ Making(c.d) = {} THEN c.d ELSE 0

\* ---------------------------------------------------------------- reading
Reading0(rs) == [st |-> "read", cap |-> rs, want |-> {r.f : r \in rs}, m |-> FALSE, d |-> 0, cur |-> 0, at |-> "pick",
                 got |-> {}, rm |-> 0, rmat |-> "", rmf |-> {}]
RBegin(a, K) ==
  /\ CanStart(a, "read") /\ wl = "" /\ \E r \in man : r.k \in K
  /\ wl' = a
  /\ pc' = [pc EXCEPT ![a] = Reading0({r \in man : r.k \in K})]
  /\ Started(a)
  /\ Go4(a, "rbegin", 0, 0, IF Cardinality(K) = 1 THEN CHOOSE k \in K : TRUE ELSE "", 0)
  /\ UNCHANGED <<man, data, size, dirs, cf, cdat, clen, refs, cache, xl, open, orphan, nid, bad>>
\* the handle's clones, while a snapshot is made and while writers let go of theirs
Mutex(h) == \E a \in DOMAIN Actors : H(a) = h /\ ((pc[a].st = "read" /\ pc[a].m) \/ (pc[a].st = "inval" /\ pc[a].rm # 0))
RMutex(a) ==
  /\ pc[a].st = "read" /\ ~pc[a].m /\ ~Mutex(H(a))
  /\ pc' = [pc EXCEPT ![a].m = TRUE]
  /\ Go(a, "rmutex")
  /\ UNCHANGED <<man, wl, data, size, dirs, cf, cdat, clen, refs, cache, xl, left, open, orphan, nid, bad>>
RPick(a) ==
  LET p == pc[a]
      h == H(a)
  IN /\ p.st = "read" /\ p.m /\ p.at = "pick" /\ p.rm = 0
     /\ \E f \in p.want :
          LET need == MaxOf({r.o + r.n : r \in {x \in p.cap : x.f = f}})
              c == cache[h][f]
              hit == c # 0 /\ clen[c][f] >= need
          IN /\ refs' = IF hit THEN [refs EXCEPT ![c][f] = @ \cup {<<"snap", a>>}] ELSE refs
             /\ pc' = IF hit THEN [pc EXCEPT ![a].want = @ \ {f}, ![a].got = @ \cup {[d |-> c, f |-> f]}]
                      ELSE [pc EXCEPT ![a].cur = f, ![a].at = IF p.d = 0 THEN "mk" ELSE "cl"]
             /\ Go4(a, IF hit THEN "rhit" ELSE "rmiss", c, f, "", 0)
  /\ UNCHANGED <<man, wl, data, size, dirs, cf, cdat, clen, cache, xl, left, open, orphan, nid, bad>>
RMkdir(a) ==
  LET new == {d \in Dirs : dirs[d] = "none"}
      d == CHOOSE x \in new : \A y \in new : x <= y
  IN /\ pc[a].st = "read" /\ pc[a].at = "mk" /\ new # {}
     /\ dirs' = [dirs EXCEPT ![d] = "on"]
     /\ pc' = [pc EXCEPT ![a].d = d, ![a].at = "cl"]
     /\ Go4(a, "mkdir", d, 0, "", 0)
  /\ UNCHANGED <<man, wl, data, size, cf, cdat, clen, refs, cache, xl, left, open, orphan, nid, bad>>
RClone(a) ==
  LET p == pc[a]
  IN /\ p.st = "read" /\ p.at = "cl"
     /\ IF dirs[p.d] # "on"
        THEN bad' = bad \cup {"no directory to clone into"} /\ UNCHANGED <<cf, cdat, clen, pc>>
        ELSE /\ cf' = [cf EXCEPT ![p.d] = @ \cup {p.cur}]
             /\ cdat' = [cdat EXCEPT ![p.d][p.cur] = data[p.cur]]
             /\ clen' = [clen EXCEPT ![p.d][p.cur] = IF "len" \in Old THEN size[p.cur] ELSE End(man, p.cur)]
             /\ pc' = [pc EXCEPT ![a].at = "op"]
             /\ UNCHANGED bad
     /\ Go4(a, "clone", p.d, p.cur, "", 0)
  /\ UNCHANGED <<man, wl, data, size, dirs, refs, cache, xl, left, open, orphan, nid>>
ROpen(a) ==
  LET p == pc[a]
  IN /\ p.st = "read" /\ p.at = "op"
     /\ IF p.cur \notin cf[p.d]
        THEN bad' = bad \cup {"no clone to open"} /\ UNCHANGED pc
        ELSE pc' = [pc EXCEPT ![a].at = "lk"] /\ UNCHANGED bad
     /\ Go4(a, "open", p.d, p.cur, "", 0)
  /\ UNCHANGED <<man, wl, data, size, dirs, cf, cdat, clen, refs, cache, xl, left, open, orphan, nid>>
RLock(a) ==
  LET p == pc[a]
      h == H(a)
      c == [d |-> p.d, f |-> p.cur]
      o == [d |-> cache[h][p.cur], f |-> p.cur]
  IN /\ p.st = "read" /\ p.at = "lk"
     /\ Go4(a, "lock", p.d, p.cur, "", 0)
     /\ IF xl = c
        THEN bad' = bad \cup {"clone locked by a clean-up"} /\ UNCHANGED <<refs, cache, pc>>
        ELSE LET mine == [IF o.d = 0 THEN refs ELSE Without(o, <<"cache", h>>)
                            EXCEPT ![c.d][c.f] = {<<"snap", a>>, <<"cache", h>>}]
             IN /\ refs' = mine
                /\ cache' = [cache EXCEPT ![h][p.cur] = p.d]
                /\ pc' = [pc EXCEPT ![a].at = "pick", ![a].got = @ \cup {c}, ![a].want = @ \ {p.cur},
                                    ![a].rm = IF o.d = 0 \/ Users(mine, o.d) # {} \/ Making(o.d) # {} THEN 0 ELSE o.d,
                                    ![a].rmat = "open"]
                /\ UNCHANGED bad
  /\ UNCHANGED <<man, wl, data, size, dirs, cf, cdat, clen, xl, left, open, orphan, nid>>
RCommit(a) ==
  LET p == pc[a]
  IN /\ p.st = "read" /\ p.at = "pick" /\ p.want = {} /\ p.rm = 0 /\ p.m
     /\ wl' = ""
     /\ pc' = [pc EXCEPT ![a] = [st |-> "snap", cap |-> p.cap, got |-> p.got, rm |-> 0]]
     /\ Go(a, "rcommit")
  /\ UNCHANGED <<man, data, size, dirs, cf, cdat, clen, refs, cache, xl, left, open, orphan, nid, bad>>
\* ------------------------------------------------- dropping what one has
Letting(cs, w) == [st |-> "drop", rel |-> cs, who |-> w, rm |-> 0, rmat |-> "open", rmf |-> {}]
RDrop(a) ==
  /\ pc[a].st = "snap"
  /\ pc' = [pc EXCEPT ![a] = Letting(pc[a].got, <<"snap", a>>)]
  /\ Go(a, "rdrop")
  /\ UNCHANGED <<man, wl, data, size, dirs, cf, cdat, clen, refs, cache, xl, left, open, orphan, nid, bad>>
Rel(a) ==
  LET p == pc[a]
  IN /\ p.st = "drop" /\ p.rm = 0
     /\ IF p.rel = {} THEN /\ pc' = [pc EXCEPT ![a] = Idle] /\ UNCHANGED refs /\ Go(a, "dropped")
        ELSE \E c \in p.rel :
               /\ refs' = Without(c, p.who)
               /\ pc' = [pc EXCEPT ![a].rel = @ \ {c}, ![a].rm = ToRemove(c, p.who), ![a].rmat = "open"]
               /\ Go4(a, "rel", c.d, c.f, "", 0)
  /\ UNCHANGED <<man, wl, data, size, dirs, cf, cdat, clen, cache, xl, left, open, orphan, nid, bad>>
\* a directory goes with its last user
RmOpen(a) ==
  LET p == pc[a]
  IN /\ p.rm # 0 /\ p.rmat = "open"
     /\ pc' = IF dirs[p.rm] # "on" THEN [pc EXCEPT ![a].rm = 0]
              ELSE [pc EXCEPT ![a].rmat = "files", ![a].rmf = cf[p.rm]]
     /\ Go4(a, "rmopen", p.rm, 0, "", 0)
  /\ UNCHANGED <<man, wl, data, size, dirs, cf, cdat, clen, refs, cache, xl, left, open, orphan, nid, bad>>
RmFile(a) ==
  LET p == pc[a]
  IN /\ p.rm # 0 /\ p.rmat = "files"
     /\ \E f \in p.rmf : /\ cf' = [cf EXCEPT ![p.rm] = @ \ {f}]
                         /\ pc' = [pc EXCEPT ![a].rmf = @ \ {f}]
                         /\ Go4(a, "rmfile", p.rm, f, "", 0)
  /\ UNCHANGED <<man, wl, data, size, dirs, cdat, clen, refs, cache, xl, left, open, orphan, nid, bad>>
RmDir(a) ==
  LET p == pc[a]
  IN /\ p.rm # 0 /\ p.rmat = "files" /\ p.rmf = {}
     /\ dirs' = [dirs EXCEPT ![p.rm] = IF cf[p.rm] = {} THEN "gone" ELSE @]
     /\ pc' = [pc EXCEPT ![a].rm = 0]
     /\ Go4(a, "rmdir", p.rm, 0, "", 0)
  /\ UNCHANGED <<man, wl, data, size, cf, cdat, clen, refs, cache, xl, left, open, orphan, nid, bad>>
Close(a) ==
  LET h == H(a)
  IN /\ CanStart(a, "close")
     /\ \A b \in DOMAIN Actors : b # a /\ H(b) = h => pc[b].st \in {"idle", "snap", "drop"} /\ left[b] = 0
     /\ open' = [open EXCEPT ![h] = FALSE]
     /\ cache' = [cache EXCEPT ![h] = [f \in Files |-> 0]]
     /\ pc' = [pc EXCEPT ![a] = Letting({[d |-> cache[h][f], f |-> f] : f \in {g \in Files : cache[h][g] # 0}}, <<"cache", h>>)]
     /\ Started(a) /\ Go(a, "close")
     /\ UNCHANGED <<man, wl, data, size, dirs, cf, cdat, clen, refs, xl, orphan, nid, bad>>

\* ------------------------------------------- writing, deleting, reclaiming
Fill(f, a, b, id) == [data EXCEPT ![f] = [u \in Units |-> IF u \in Rng(a, b) THEN id ELSE @[u]]]
KeepW == <<dirs, cf, cdat, clen, refs, cache, xl, open, orphan, bad>>
WNew(a) ==
  /\ CanStart(a, "put") /\ size[H(a)] < Size
  /\ pc' = [pc EXCEPT ![a] = [st |-> "new", o |-> size[H(a)], id |-> nid, rm |-> 0, part |-> FALSE]]
  /\ nid' = nid + 2 /\ Started(a) /\ Go(a, "new")
  /\ UNCHANGED <<man, wl, data, size>> /\ UNCHANGED KeepW
\* a copy that fails after one unit
WPart(a) ==
  LET f == H(a)
  IN /\ pc[a].st = "new" /\ ~pc[a].part /\ "part" \in Actors[a].k /\ size[f] + 1 <= Size
     /\ data' = Fill(f, size[f], size[f] + 1, pc[a].id + 1)
     /\ size' = [size EXCEPT ![f] = @ + 1]
     /\ pc' = [pc EXCEPT ![a].st = "part", ![a].part = TRUE]
     /\ Go4(a, "part", 0, f, "", 1)
  /\ UNCHANGED <<man, wl, left, nid>> /\ UNCHANGED KeepW
WBack(a) ==
  LET f == H(a)
  IN /\ pc[a].st = "part"
     /\ data' = Fill(f, pc[a].o, Size, 0)
     /\ size' = [size EXCEPT ![f] = pc[a].o]
     /\ pc' = [pc EXCEPT ![a].st = "new"]
     /\ Go4(a, "back", 0, f, "", 0)
  /\ UNCHANGED <<man, wl, left, nid>> /\ UNCHANGED KeepW
WWrite(a) ==
  LET f == H(a)
  IN /\ pc[a].st = "new" /\ size[f] + 1 <= Size
     /\ data' = Fill(f, size[f], size[f] + 1, pc[a].id)
     /\ size' = [size EXCEPT ![f] = @ + 1]
     /\ pc' = [pc EXCEPT ![a].st = "written"]
     /\ Go4(a, "write", 0, f, "", 1)
  /\ UNCHANGED <<man, wl, left, nid>> /\ UNCHANGED KeepW
WCommit(a, k) ==
  LET f == H(a)
  IN /\ pc[a].st = "written" /\ wl = ""
     /\ man' = {r \in man : r.k # k} \cup {[k |-> k, f |-> f, o |-> pc[a].o, n |-> 1, id |-> pc[a].id]}
     /\ pc' = [pc EXCEPT ![a] = [st |-> "inval", f |-> f, rm |-> 0, rmat |-> "open", rmf |-> {}, done |-> FALSE]]
     /\ Go4(a, "commit", 0, f, k, 1)
  /\ UNCHANGED <<wl, data, size, left, nid>> /\ UNCHANGED KeepW
\* the handle forgets its clone of the file
WInval(a) ==
  LET h == H(a)
      p == pc[a]
      c == [d |-> cache[h][p.f], f |-> p.f]
  IN /\ p.st = "inval" /\ ~p.done /\ ~Mutex(h)
     /\ cache' = [cache EXCEPT ![h][p.f] = 0]
     /\ refs' = IF c.d = 0 THEN refs ELSE Without(c, <<"cache", h>>)
     /\ pc' = [pc EXCEPT ![a].done = TRUE, ![a].rm = IF c.d = 0 THEN 0 ELSE ToRemove(c, <<"cache", h>>)]
     /\ Go4(a, "inval", c.d, c.f, "", 0)
  /\ UNCHANGED <<man, wl, data, size, dirs, cf, cdat, clen, xl, left, open, orphan, nid, bad>>
WRet(a) ==
  /\ pc[a].st = "inval" /\ pc[a].done /\ pc[a].rm = 0
  /\ pc' = [pc EXCEPT ![a] = Idle]
  /\ Go(a, "ret")
  /\ UNCHANGED <<man, wl, data, size, left, nid>> /\ UNCHANGED KeepW
Del(a, k) ==
  /\ CanStart(a, "del") /\ wl = "" /\ \E r \in man : r.k = k
  /\ man' = {r \in man : r.k # k}
  /\ Started(a) /\ Go4(a, "del", 0, 0, k, 0)
  /\ UNCHANGED <<wl, data, size, pc, nid>> /\ UNCHANGED KeepW
\* whatever is dead and not being written may go at any time, whoever has clones
Hole(f) ==
  LET busy == UNION {IF pc[a].st \in {"part", "written"} /\ H(a) = f THEN Rng(pc[a].o, Size) ELSE {} : a \in DOMAIN Actors}
      U == {u \in Units : data[f][u] # 0} \ (busy \cup UNION {Of(r) : r \in {x \in man : x.f = f}})
  IN /\ U # {}
     /\ data' = [data EXCEPT ![f] = [u \in Units |-> IF u \in U THEN 0 ELSE @[u]]]
     /\ Go4("P", "hole", 0, f, "", 0)
  /\ UNCHANGED <<man, wl, size, pc, left, nid>> /\ UNCHANGED KeepW

\* --------------------------------------------------------------- clean-up
On == {d \in Dirs : dirs[d] = "on"}
BeingRemoved == {pc[a].rm : a \in DOMAIN Actors}
KeepK == <<man, data, size, cdat, clen, refs, cache, open, orphan, nid>>
KBegin(a) ==
  /\ CanStart(a, "clean") /\ (wl = "" \/ "nolock" \in Old)
  /\ wl' = IF "nolock" \in Old THEN wl ELSE a
  /\ pc' = [pc EXCEPT ![a] = [st |-> "walk", todo |-> On, list |-> {}, ds |-> {}, cur |-> NoClone, rm |-> 0,
                              ab |-> {d \in On : Users(refs, d) = {} /\ Making(d) = {} /\ d \notin BeingRemoved}]]
  /\ Started(a) /\ Go(a, "kbegin")
  /\ UNCHANGED <<dirs, cf, xl, bad>> /\ UNCHANGED KeepK
KDir(a) ==
  LET p == pc[a]
  IN /\ p.st = "walk"
     /\ IF p.todo = {} THEN /\ pc' = [pc EXCEPT ![a].st = "clean"] /\ Go(a, "kwalked") /\ UNCHANGED bad
        ELSE \E d \in p.todo :
               /\ pc' = [pc EXCEPT ![a].todo = @ \ {d},
                                   ![a].ds = IF dirs[d] = "on" THEN @ \cup {d} ELSE @,
                                   ![a].list = @ \cup {[d |-> d, f |-> f] : f \in IF dirs[d] = "on" THEN cf[d] ELSE {}}]
               /\ bad' = IF dirs[d] # "on" /\ "vanish" \in Old THEN bad \cup {"clean-up fails"} ELSE bad
               /\ Go4(a, "kdir", d, 0, "", 0)
  /\ UNCHANGED <<wl, left, dirs, cf, xl>> /\ UNCHANGED KeepK
KOpen(a) ==
  LET p == pc[a]
  IN /\ p.st = "clean" /\ p.cur = NoClone
     /\ \E c \in p.list :
          /\ \A e \in p.list : c.d <= e.d          \* (one directory after the other)
          /\ \A d \in p.ds : c.d <= d
          /\ pc' = [pc EXCEPT ![a].list = @ \ {c}, ![a].cur = IF c.f \in cf[c.d] THEN c ELSE NoClone,
                              ![a].st = IF c.f \in cf[c.d] THEN "opened" ELSE "clean"]
          /\ Go4(a, "kopen", c.d, c.f, "", 0)
  /\ UNCHANGED <<wl, left, dirs, cf, xl, bad>> /\ UNCHANGED KeepK
KLock(a) ==
  LET p == pc[a]
      can == refs[p.cur.d][p.cur.f] = {} /\ xl = NoClone
  IN /\ p.st = "opened"
     /\ xl' = IF can THEN p.cur ELSE xl
     /\ pc' = IF can THEN [pc EXCEPT ![a].st = "locked"] ELSE [pc EXCEPT ![a].st = "clean", ![a].cur = NoClone]
     /\ Go4(a, "klock", p.cur.d, p.cur.f, "", IF can THEN 1 ELSE 0)
  /\ UNCHANGED <<wl, left, dirs, cf, bad>> /\ UNCHANGED KeepK
KUnlink(a) ==
  LET p == pc[a]
  IN /\ p.st = "locked"
     /\ cf' = [cf EXCEPT ![p.cur.d] = @ \ {p.cur.f}]
     /\ pc' = [pc EXCEPT ![a].st = "unlinked"]
     /\ Go4(a, "kunlink", p.cur.d, p.cur.f, "", 0)
  /\ UNCHANGED <<wl, left, dirs, xl, bad>> /\ UNCHANGED KeepK
Gone(d) == [dirs EXCEPT ![d] = IF @ = "on" /\ cf[d] = {} THEN "gone" ELSE @]
KParent(a) ==
  LET p == pc[a]
  IN /\ p.st = "unlinked"
     /\ dirs' = Gone(p.cur.d)
     /\ xl' = NoClone
     /\ pc' = [pc EXCEPT ![a].st = "clean", ![a].cur = NoClone]
     /\ Go4(a, "kparent", p.cur.d, 0, "", 0)
  /\ UNCHANGED <<wl, left, cf, bad>> /\ UNCHANGED KeepK
KRmdir(a) ==
  LET p == pc[a]
  IN /\ p.st = "clean" /\ p.cur = NoClone
     /\ \E d \in p.ds :
          /\ \A e \in p.ds : d <= e
          /\ \A e \in p.list : d < e.d
          /\ dirs' = Gone(d)
          /\ pc' = [pc EXCEPT ![a].ds = @ \ {d}]
          /\ Go4(a, "krmdir", d, 0, "", 0)
  /\ UNCHANGED <<wl, left, cf, xl, bad>> /\ UNCHANGED KeepK
KEnd(a) ==
  LET p == pc[a]
  IN /\ p.st = "clean" /\ p.list = {} /\ p.ds = {} /\ p.cur = NoClone
     /\ wl' = IF wl = a THEN "" ELSE wl
     /\ bad' = IF \E d \in p.ab : dirs[d] = "on" THEN bad \cup {"an abandoned directory is left"} ELSE bad
     /\ pc' = [pc EXCEPT ![a] = Idle]
     /\ Go(a, "kend")
  /\ UNCHANGED <<left, dirs, cf, xl>> /\ UNCHANGED KeepK
\* ------------------------------------------------------------------ death
Kill(h) ==
  LET A == {a \in DOMAIN Actors : H(a) = h}
      T == {<<"snap", a>> : a \in A} \cup {<<"cache", h>>}
  IN /\ h \in Kills /\ open[h] /\ \E a \in A : pc[a].st # "idle"
     /\ open' = [open EXCEPT ![h] = FALSE]
     /\ orphan' = orphan \cup {d \in On : Users(refs, d) \cap T # {} \/ Making(d) \cap A # {} \/ \E a \in A : pc[a].rm = d}
     /\ refs' = [d \in Dirs |-> [f \in Files |-> refs[d][f] \ T]]
     /\ cache' = [cache EXCEPT ![h] = [f \in Files |-> 0]]
     /\ xl' = IF \E a \in A : pc[a].st \in {"locked", "unlinked"} THEN NoClone ELSE xl
     /\ wl' = IF wl \in A THEN "" ELSE wl
     /\ pc' = [a \in DOMAIN Actors |-> IF a \in A THEN [st |-> "dead", rm |-> 0] ELSE pc[a]]
     /\ Go4("K", "kill", h, 0, "", 0)
     /\ UNCHANGED <<man, data, size, dirs, cf, cdat, clen, left, nid, bad>>

\* --------------------------------------------------------------- behaviour
RECURSIVE Begin(_, _)
Begin(s, j) ==
  IF j > Len(Start) THEN s
  ELSE LET x == Start[j]
           o == s.size[x.h]
       IN Begin([man |-> s.man \cup {[k |-> x.k, f |-> x.h, o |-> o, n |-> x.n, id |-> j]},
                 size |-> [s.size EXCEPT ![x.h] = o + x.n],
                 data |-> [s.data EXCEPT ![x.h] = [u \in Units |-> IF u \in Rng(o, o + x.n) THEN j ELSE @[u]]]], j + 1)
S0 == Begin([man |-> {}, size |-> [f \in Files |-> 0], data |-> [f \in Files |-> [u \in Units |-> 0]]], 1)
Init ==
  /\ man = S0.man /\ wl = "" /\ data = S0.data /\ size = S0.size
  /\ dirs = [d \in Dirs |-> "none"] /\ cf = [d \in Dirs |-> {}]
  /\ cdat = [d \in Dirs |-> [f \in Files |-> [u \in Units |-> 0]]]
  /\ clen = [d \in Dirs |-> [f \in Files |-> 0]]
  /\ refs = [d \in Dirs |-> [f \in Files |-> {}]]
  /\ cache = [h \in Handles |-> [f \in Files |-> 0]]
  /\ xl = NoClone
  /\ pc = [a \in DOMAIN Actors |-> Idle]
  /\ left = [a \in DOMAIN Actors |-> Actors[a].n]
  /\ open = [h \in Handles |-> TRUE]
  /\ orphan = {} /\ nid = Len(Start) + 1 /\ bad = {}
  /\ op = [a |-> "", s |-> "", d |-> 0, f |-> 0, k |-> "", n |-> 0]
Act(a) == \/ (\E K \in {{k} : k \in Keys} \cup {Keys} : RBegin(a, K)) \/ RMutex(a) \/ RPick(a) \/ RMkdir(a) \/ RClone(a)
          \/ ROpen(a) \/ RLock(a) \/ RCommit(a) \/ RDrop(a) \/ Rel(a) \/ RmOpen(a) \/ RmFile(a) \/ RmDir(a) \/ Close(a)
          \/ WNew(a) \/ WPart(a) \/ WBack(a) \/ WWrite(a) \/ (\E k \in Keys : WCommit(a, k)) \/ WInval(a) \/ WRet(a)
          \/ (\E k \in Keys : Del(a, k))
          \/ KBegin(a) \/ KDir(a) \/ KOpen(a) \/ KLock(a) \/ KUnlink(a) \/ KParent(a) \/ KRmdir(a) \/ KEnd(a)
Resting == \A a \in DOMAIN Actors : pc[a].st \in {"idle", "snap", "dead"}
\* nothing more will happen (or there are no directories left to make)
Over == Resting \/ (\A d \in Dirs : dirs[d] # "none")
Next == (\E a \in DOMAIN Actors : Act(a)) \/ (\E f \in Files : Hole(f)) \/ (\E h \in Kills : Kill(h)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
View == state

(* -------------------------------------------------------------- properties *)
NoBad == bad = {}
\* what is used is there
InUse == \A d \in Dirs, f \in Files : refs[d][f] # {} => dirs[d] = "on" /\ f \in cf[d]
\* what nobody uses is not, but for what the dead left
Removed == Resting => \A d \in On : Users(refs, d) # {} \/ d \in orphan
\* snapshots contain what they captured
Snaps == \A a \in DOMAIN Actors : pc[a].st = "snap" =>
           \A r \in pc[a].cap : \E c \in pc[a].got : c.f = r.f /\ \A u \in Of(r) : cdat[c.d][c.f][u] = r.id
Live == \A r \in man : \A u \in Of(r) : data[r.f][u] = r.id
================================================================================
