---------------------------- MODULE CkubeReload ----------------------------
(***************************************************************************)
(* Reloading the configuration: the two files on disk, the goroutine that  *)
(* watches them (utils/fs_watcher.go) and the one that loads them          *)
(* (cmd/cacheproxy/main.go).                                               *)
(*                                                                         *)
(* A path names a file (an inode) or nothing.  Files are written in place, *)
(* replaced by renaming another one over them, removed, moved away and     *)
(* created anew.  The kernel reports a write to a watched file and that a  *)
(* watched file is gone; it does not report that a file which stays in use *)
(* elsewhere (another link, an open reader) is not called so any more, nor *)
(* that a link points elsewhere.  That is why the watcher compares, at     *)
(* every tick, the file it watches with the one the path names.            *)
(*                                                                         *)
(* The constants select designs; with the first four at their proper       *)
(* values the system has the properties below.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Readd,        \* a file that is gone is looked for again, as long as it takes
  Compare,      \* every tick compares the watched file with the named one
  WatchFirst,   \* the files are watched before they are read for the first time
  Adopt,        \* "both": all or nothing; "each": a good file counts even if the other is bad
  MaxOps,       \* how often the files are touched
  MaxContent    \* contents are 1..MaxContent; 0 cannot be loaded

File == {"cfg", "kube"}
Other(f) == IF f = "cfg" THEN "kube" ELSE "cfg"
Content == 0 .. MaxContent
NoFile == 0

VARIABLES
  path,     \* [File -> inode or NoFile]: what the path names
  data,     \* sequence: the content of every file there has been
  watch,    \* [File -> inode or NoFile]: what the kernel watches
  events,   \* what the kernel has to report
  missing,  \* [File -> "no", "new", "told"]
  tick,     \* files still to be looked at in this tick
  due,      \* there is something to load
  load,     \* <<>> or <<content of cfg>> or <<cfg, kube>>: being read
  serving,  \* [File -> Content]: what requests are served by
  running,  \* the program is up
  wpc,      \* the watcher has been started
  ops       \* how often the files have been touched

rvars == <<path, data, watch, events, missing, tick, due, load, serving, running, wpc, ops>>

Inode(f) == path[f]
Reading(f) == IF path[f] = NoFile THEN 0 ELSE data[path[f]]

RInit ==
  /\ path = [f \in File |-> IF f = "cfg" THEN 1 ELSE 2]
  /\ data = <<1, 1>>
  /\ watch = [f \in File |-> NoFile]
  /\ events = << >>
  /\ missing = [f \in File |-> "no"]
  /\ tick = {}
  /\ due = TRUE
  /\ load = << >>
  /\ serving = [f \in File |-> 0]
  /\ running = FALSE
  /\ wpc = FALSE
  /\ ops = 0

----------------------------------------------------------------------------
(* Those who write the files.                                              *)
Touch == ops < MaxOps /\ ops' = ops + 1
Report(k, f) == events' = IF watch[f] # NoFile /\ watch[f] = path[f] THEN Append(events, <<k, f>>) ELSE events
DiskOnly == UNCHANGED <<missing, tick, due, load, serving, running, wpc>>

InPlace(f, c) ==
  /\ Touch /\ path[f] # NoFile
  /\ data' = [data EXCEPT ![path[f]] = c]
  /\ Report("write", f)
  /\ UNCHANGED <<path, watch>> /\ DiskOnly

\* kept: the old file stays in use elsewhere, or the path is a link
RenameOver(f, c, kept) ==
  /\ Touch /\ path[f] # NoFile
  /\ data' = Append(data, c)
  /\ path' = [path EXCEPT ![f] = Len(data) + 1]
  /\ IF kept THEN UNCHANGED events ELSE Report("gone", f)
  /\ watch' = IF kept \/ watch[f] # path[f] THEN watch ELSE [watch EXCEPT ![f] = NoFile]
  /\ DiskOnly

Remove(f, kept) ==
  /\ Touch /\ path[f] # NoFile
  /\ path' = [path EXCEPT ![f] = NoFile]
  /\ IF kept THEN UNCHANGED events ELSE Report("gone", f)
  /\ watch' = IF kept \/ watch[f] # path[f] THEN watch ELSE [watch EXCEPT ![f] = NoFile]
  /\ UNCHANGED data /\ DiskOnly

\* the kernel goes on watching the file that was moved away
MoveAway(f) ==
  /\ Touch /\ path[f] # NoFile
  /\ path' = [path EXCEPT ![f] = NoFile]
  /\ Report("gone", f)
  /\ UNCHANGED <<data, watch>> /\ DiskOnly

Create(f, c) ==
  /\ Touch /\ path[f] = NoFile
  /\ data' = Append(data, c)
  /\ path' = [path EXCEPT ![f] = Len(data) + 1]
  /\ UNCHANGED <<events, watch>> /\ DiskOnly

Writers ==
  \E f \in File : \/ \E c \in Content : InPlace(f, c) \/ Create(f, c) \/ \E k \in BOOLEAN : RenameOver(f, c, k)
                  \/ \E k \in BOOLEAN : Remove(f, k)
                  \/ MoveAway(f)

----------------------------------------------------------------------------
(* The watcher.  It hands one reload at a time to the loader and waits     *)
(* until the loader takes it.                                              *)
Quiet == UNCHANGED <<path, data, ops, serving>>
StartWatch ==
  /\ ~wpc /\ (WatchFirst \/ running)
  /\ \A f \in File : path[f] # NoFile   \* else the program ends
  /\ wpc' = TRUE /\ watch' = path
  /\ UNCHANGED <<events, missing, tick, due, load, running>> /\ Quiet

LoaderFree == running /\ ~due /\ load = << >>

Event ==
  /\ wpc /\ tick = {} /\ events # << >>
  /\ LET k == Head(events)[1]  f == Head(events)[2] IN
     IF k = "gone"
     THEN /\ watch' = [watch EXCEPT ![f] = NoFile]
          /\ missing' = IF Readd THEN [missing EXCEPT ![f] = "new"] ELSE missing
          /\ UNCHANGED due
     ELSE /\ LoaderFree /\ due' = TRUE /\ UNCHANGED <<watch, missing>>
  /\ events' = Tail(events)
  /\ UNCHANGED <<tick, load, running, wpc>> /\ Quiet

Tick ==
  /\ wpc /\ tick = {}
  /\ \E f \in File : missing[f] = "new" \/ (missing[f] = "told" /\ path[f] # NoFile) \/ (Compare /\ watch[f] # path[f] /\ missing[f] = "no")
  /\ tick' = File
  /\ UNCHANGED <<watch, missing, events, due, load, running, wpc>> /\ Quiet

TickFile(f) ==
  /\ f \in tick
  /\ LET m == IF Compare /\ missing[f] = "no" /\ watch[f] # path[f] THEN "new" ELSE missing[f] IN
     CASE m = "no" -> /\ UNCHANGED <<watch, missing, due>>
       [] m # "no" /\ path[f] # NoFile -> /\ LoaderFree /\ due' = TRUE
                                          /\ watch' = [watch EXCEPT ![f] = path[f]]
                                          /\ missing' = [missing EXCEPT ![f] = "no"]
       [] m = "new" /\ path[f] = NoFile -> /\ LoaderFree /\ due' = TRUE
                                           /\ watch' = [watch EXCEPT ![f] = NoFile]
                                           /\ missing' = [missing EXCEPT ![f] = "told"]
       [] m = "told" /\ path[f] = NoFile -> UNCHANGED <<watch, missing, due>>
  /\ tick' = tick \ {f}
  /\ UNCHANGED <<events, load, running, wpc>> /\ Quiet

----------------------------------------------------------------------------
(* The loader reads one file after the other; if both are good requests    *)
(* are served by them from then on.                                        *)
ReadOne ==
  /\ due /\ (running \/ wpc \/ ~WatchFirst)
  /\ Len(load) < 2
  /\ load' = Append(load, Reading(IF load = << >> THEN "cfg" ELSE "kube"))
  /\ UNCHANGED <<watch, missing, events, tick, due, running, wpc>> /\ UNCHANGED <<path, data, ops, serving>>

Finish ==
  /\ Len(load) = 2
  /\ LET good == \A i \in 1..2 : load[i] # 0 IN
     /\ running' = (running \/ good)     \* a program that cannot load at first ends
     /\ serving' = IF good THEN [f \in File |-> IF f = "cfg" THEN load[1] ELSE load[2]]
                   ELSE IF Adopt = "each" /\ load[1] # 0 THEN [serving EXCEPT !["cfg"] = load[1]]
                   ELSE serving
     /\ due' = IF running \/ good THEN FALSE ELSE due
  /\ load' = << >>
  /\ UNCHANGED <<watch, missing, events, tick, wpc, path, data, ops>>

System == StartWatch \/ Event \/ Tick \/ (\E f \in File : TickFile(f)) \/ ReadOne \/ Finish
RNext == Writers \/ System
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(System)

----------------------------------------------------------------------------
TypeOK ==
  /\ \A f \in File : path[f] \in 0 .. Len(data) /\ watch[f] \in 0 .. Len(data) /\ serving[f] \in Content
  /\ Len(load) <= 2

\* All or nothing: what is served was read from both files, one right after the other.
Whole == [][serving' # serving => /\ Len(load) = 2 /\ load[1] # 0 /\ load[2] # 0
                                  /\ serving'["cfg"] = load[1] /\ serving'["kube"] = load[2]]_rvars
NeverBad == running => \A f \in File : serving[f] # 0

\* Sooner or later the last contents are served, if they can be loaded.
Loadable == \A f \in File : Reading(f) # 0
Current == \A f \in File : serving[f] = Reading(f)
Converges == <>[](running /\ wpc /\ Loadable => Current)
=============================================================================
