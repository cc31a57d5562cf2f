------------------------------- MODULE PossumInit -------------------------------
(* Opening a directory: the very first time, one in an older format, or one as it should *)
(* be; with the process dying at any of the steps, any number of openings in a row, and  *)
(* others opening the same directory once one of them got through (before that only one  *)
(* at a time may open: the code documents this). The steps are those between which the   *)
(* code leaves something behind on disk. (C10, C16)                                      *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Openers,   \* each opens once
          OldFiles,  \* values files there may be to begin with
          Old        \* defects: "version first", "files last", "no wal"

Current == 3
Older == -1
Statements == 4      \* of the schema, each of which is there on its own
VARIABLES ver,       \* user_version
          schema,    \* how many statements of the current one there are, or Older
          rows,      \* items there are
          mode,      \* journal mode on disk: "delete", "wal"
          files,     \* values files
          pc,        \* opener -> where it is
          todo,      \* opener -> values files it has listed
          locked,    \* who has the manifest to itself
          ever,      \* what there was to be preserved: the items if the directory was current, else nothing
          used,      \* somebody got through
          crashes
vars == <<ver, schema, rows, mode, files, pc, todo, locked, ever, used, crashes>>

Init ==
  /\ \/ /\ ver = 0 /\ schema = 0 /\ rows = {}                        \* nothing there, or an empty file
     \/ /\ ver \in 0..2 /\ schema \in {Older, 1, 2, 3} /\ rows = {"old"}  \* an older one, or something cut short
     \/ /\ ver = Current /\ schema = Statements /\ rows = {"x"}
  /\ mode \in {"delete", "wal"}
  /\ files \in {[f \in S |-> "old"] : S \in SUBSET OldFiles}
  /\ ever = IF ver = Current THEN rows ELSE {}
  /\ pc = [o \in Openers |-> "start"]
  /\ todo = [o \in Openers |-> {}]
  /\ locked = {} /\ used = (ver = Current) /\ crashes = 0

Going(o) == pc[o] \notin {"start", "open", "dead"}
\* the documented use: until somebody got through, one at a time
MayStart(o) == used \/ ~\E p \in Openers : Going(p)
Go(o, to) == pc' = [pc EXCEPT ![o] = to]
Nobody(o) == locked \subseteq {o}

Start(o) == /\ pc[o] = "start" /\ MayStart(o) /\ Go(o, "version")
            /\ UNCHANGED <<ver, schema, rows, mode, files, todo, locked, ever, used, crashes>>
\* which version is there
Version(o) ==
  /\ pc[o] = "version" /\ Nobody(o)
  /\ Go(o, IF ver < Current THEN "journal" ELSE IF "no wal" \in Old THEN "through" ELSE "wal")
  /\ UNCHANGED <<ver, schema, rows, mode, files, todo, locked, ever, used, crashes>>
\* leave wal mode, which takes everybody else being gone
Journal(o) ==
  /\ pc[o] = "journal" /\ Nobody(o)
  /\ ~\E p \in Openers : p # o /\ pc[p] = "open"
  /\ mode' = "delete"
  /\ Go(o, "again")
  /\ UNCHANGED <<ver, schema, rows, files, todo, locked, ever, used, crashes>>
\* have it to oneself from the next access on, and look again
Again(o) ==
  /\ pc[o] = "again" /\ Nobody(o)
  /\ locked' = {o}
  /\ Go(o, IF ver < Current THEN "reset" ELSE "unlock")
  /\ UNCHANGED <<ver, schema, rows, mode, files, todo, ever, used, crashes>>
\* an empty database: one transaction of SQLite's
Reset(o) ==
  /\ pc[o] = "reset"
  /\ ver' = 0 /\ schema' = 0 /\ rows' = {}
  /\ Go(o, IF "version first" \in Old THEN "set" ELSE IF "files last" \in Old THEN "schema" ELSE "list")
  /\ UNCHANGED <<mode, files, todo, locked, ever, used, crashes>>
\* the values files go
List(o) ==
  /\ pc[o] = "list"
  /\ todo' = [todo EXCEPT ![o] = DOMAIN files]
  /\ Go(o, "files")
  /\ UNCHANGED <<ver, schema, rows, mode, files, locked, ever, used, crashes>>
File(o) ==
  /\ pc[o] = "files"
  /\ IF todo[o] = {} THEN /\ Go(o, IF "files last" \in Old THEN "unlock" ELSE "schema")
                          /\ UNCHANGED <<files, todo>>
     ELSE \E f \in todo[o] : /\ todo' = [todo EXCEPT ![o] = @ \ {f}]
                             /\ files' = [g \in DOMAIN files \ {f} |-> files[g]]
                             /\ UNCHANGED pc
  /\ UNCHANGED <<ver, schema, rows, mode, locked, ever, used, crashes>>
\* the schema, a statement at a time: one that is there already is an error
Schema(o) ==
  /\ pc[o] = "schema"
  /\ LET n == schema
     IN /\ n < Statements
        /\ schema' = n + 1
        /\ Go(o, IF n + 1 < Statements THEN "schema" ELSE IF "version first" \in Old THEN "unlock" ELSE "set")
  /\ UNCHANGED <<ver, rows, mode, files, todo, locked, ever, used, crashes>>
Set(o) ==
  /\ pc[o] = "set"
  /\ ver' = Current
  /\ Go(o, IF Old \cap {"version first", "files last"} # {} THEN "list" ELSE "unlock")
  /\ UNCHANGED <<schema, rows, mode, files, todo, locked, ever, used, crashes>>
Unlock(o) ==
  /\ pc[o] = "unlock"
  /\ locked' = {} /\ Go(o, "wal")
  /\ UNCHANGED <<ver, schema, rows, mode, files, todo, ever, used, crashes>>
Wal(o) ==
  /\ pc[o] = "wal" /\ Nobody(o)
  /\ mode' = "wal" /\ Go(o, "through")
  /\ UNCHANGED <<ver, schema, rows, files, todo, locked, ever, used, crashes>>
Through(o) ==
  /\ pc[o] = "through" /\ Go(o, "open") /\ used' = TRUE
  /\ UNCHANGED <<ver, schema, rows, mode, files, todo, locked, ever, crashes>>
\* ... writes something
Use(o) ==
  /\ pc[o] = "open" /\ Nobody(o) /\ o \notin rows
  /\ rows' = rows \cup {o} /\ ever' = ever \cup {o}
  /\ files' = [f \in DOMAIN files \cup {o} |-> IF f = o THEN "new" ELSE files[f]]
  /\ UNCHANGED <<ver, schema, mode, pc, todo, locked, used, crashes>>
Crash(o) ==
  /\ Going(o) \/ pc[o] = "open"
  /\ Go(o, "dead") /\ locked' = locked \ {o} /\ crashes' = crashes + 1
  /\ UNCHANGED <<ver, schema, rows, mode, files, todo, ever, used>>
Ended == \A o \in Openers : pc[o] \in {"open", "dead"} /\ (pc[o] = "open" => o \in rows)
Next == \/ \E o \in Openers : \/ Start(o) \/ Version(o) \/ Journal(o) \/ Again(o) \/ Reset(o) \/ List(o) \/ File(o)
                              \/ Schema(o) \/ Set(o) \/ Unlock(o) \/ Wal(o) \/ Through(o) \/ Use(o) \/ Crash(o)
        \/ Ended /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
\* whoever is through has a complete manifest, in the mode in which readers and writers don't disturb each other
Complete == \A o \in Openers : pc[o] = "open" => ver = Current /\ schema = Statements /\ mode = "wal"
\* ... with what was there before, if it was in the current format, and what was written since; or nothing
Contents == used /\ ver = Current => rows = ever
\* nothing is lost of what somebody wrote, and no files of an older format are left behind
Files == \A o \in Openers : pc[o] = "open" =>
           /\ \A x \in rows \cap Openers : x \in DOMAIN files
           /\ ("x" \notin ever => \A f \in DOMAIN files : files[f] = "new")
\* the version says current only for what is
Honest == ver = Current => schema = Statements
================================================================================
