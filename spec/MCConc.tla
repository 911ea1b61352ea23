------------------------------- MODULE MCConc -------------------------------
(* The design of the store at the granularity of its locks: one lock over    *)
(* the namespaces of a cluster (L1), one per namespace (L2), both with Go's  *)
(* RWMutex rule that a waiting writer holds off new readers.  Writers create *)
(* the namespace under L1 and write under L2; a reader holds L1 for reading  *)
(* while it copies one namespace after the other, each under its L2.         *)
EXTENDS CkubeConc, TLC
CONSTANTS NSs, Names, Writers, Readers, MaxOps,
          Single,    \* one source: a namespace must be seen as it was at one instant
          NoLock2,   \* mutant: the reader copies without L2
          Nested,    \* mutant: the reader takes L1 again while holding it
          CopyBack   \* mutant: a writer copies the namespace, changes the copy and puts it back

VARIABLES lock,      \* lock -> [rd: readers inside, wr: writer inside or 0, wait: writer waiting or 0]
          mem, exists,
          pc, op, nops,        \* writers: [ns, n, v] in progress
          rpc, todo, names, copy, tmp,
          t, bt, poss, seen, last, bad
vars == <<lock, mem, exists, pc, op, nops, rpc, todo, names, copy, tmp, t, bt, poss, seen, last, bad>>

L1 == <<"L1", "">>
Locks == {L1} \cup {<<"L2", ns>> : ns \in NSs}
Units == IF Single THEN NSs ELSE NSs \X Names
Free == [rd |-> {}, wr |-> 0, wait |-> 0]
Empty == [n \in Names |-> 0]

Init == /\ lock = [l \in Locks |-> Free] /\ mem = [ns \in NSs |-> Empty] /\ exists = {}
        /\ pc = [w \in Writers |-> "idle"] /\ op = [w \in Writers |-> <<>>] /\ nops = 0
        /\ rpc = [r \in Readers |-> <<"idle", "">>] /\ todo = [r \in Readers |-> {}] /\ names = [r \in Readers |-> {}]
        /\ copy = [r \in Readers |-> [ns \in NSs |-> Empty]] /\ tmp = [w \in Writers |-> Empty]
        /\ t = 2 /\ bt = [w \in Writers |-> 0] /\ poss = Init0(Units, IF Single THEN Empty ELSE 0, 0)
        /\ seen = [r \in Readers |-> <<>>] /\ last = [ns \in NSs |-> Empty] /\ bad = {}

\* ---- RWMutex
CanR(l) == lock[l].wr = 0 /\ lock[l].wait = 0
RL(l, r) == CanR(l) /\ lock' = [lock EXCEPT ![l].rd = @ \cup {r}]
RU(l, r) == lock' = [lock EXCEPT ![l].rd = @ \ {r}]
Ask(l, w) == lock[l].wait = 0 /\ lock[l].wr = 0 /\ lock' = [lock EXCEPT ![l].wait = w]
Got(l, w) == lock[l].wait = w /\ lock[l].rd = {} /\ lock' = [lock EXCEPT ![l].wait = 0, ![l].wr = w]
WU(l) == lock' = [lock EXCEPT ![l].wr = 0]

judge == <<t, bt, poss, seen, last, bad>>
mems == <<mem, exists>>
rd == <<rpc, todo, names, copy>>
wrs == <<pc, op, nops, tmp>>

\* ---- writers
WBegin(w) ==
  /\ pc[w] = "idle" /\ nops < MaxOps
  /\ \E ns \in NSs, n \in Names :
       LET v == nops + 1
           s == [last EXCEPT ![ns][n] = v]
           new == IF Single THEN [u \in {ns} |-> s[ns]] ELSE [u \in {<<ns, n>>} |-> v] IN
       /\ op' = [op EXCEPT ![w] = [ns |-> ns, n |-> n, v |-> v]] /\ nops' = v
       /\ last' = s /\ poss' = PossBegin(poss, v, new)
       /\ seen' = [r \in Readers |-> IF rpc[r][1] \in {"idle", "done"} THEN seen[r] ELSE SeenBegin(<<seen[r]>>, new)[1]]
       /\ t' = t + 1 /\ bt' = [bt EXCEPT ![w] = t]
  \* a namespace that exists may be looked up without the lock that creating it needs
  /\ pc' \in {[pc EXCEPT ![w] = "init"]} \cup (IF op'[w].ns \in exists THEN {[pc EXCEPT ![w] = IF CopyBack THEN "cpy" ELSE "set"]} ELSE {})
  /\ UNCHANGED <<lock, mems, rd, tmp, bad>>
Step(w, from, to) == pc[w] = from /\ pc' = [pc EXCEPT ![w] = to]
L2(w) == <<"L2", op[w].ns>>
WAsk1(w) == Step(w, "init", "wait1") /\ Ask(L1, w) /\ UNCHANGED <<mems, op, nops, tmp, rd, judge>>
WGot1(w) == Step(w, "wait1", "in1") /\ Got(L1, w) /\ exists' = exists \cup {op[w].ns} /\ UNCHANGED <<mem, op, nops, tmp, rd, judge>>
WRel1(w) == Step(w, "in1", IF CopyBack THEN "cpy" ELSE "set") /\ WU(L1) /\ UNCHANGED <<mems, op, nops, tmp, rd, judge>>
WCopy(w) == Step(w, "cpy", "set") /\ CanR(L2(w)) /\ tmp' = [tmp EXCEPT ![w] = mem[op[w].ns]] /\ UNCHANGED <<lock, mems, op, nops, rd, judge>>
WAsk2(w) == Step(w, "set", "wait2") /\ Ask(L2(w), w) /\ UNCHANGED <<mems, op, nops, tmp, rd, judge>>
WGot2(w) == Step(w, "wait2", "in2") /\ Got(L2(w), w)
            /\ mem' = [mem EXCEPT ![op[w].ns] = [(IF CopyBack THEN tmp[w] ELSE @) EXCEPT ![op[w].n] = op[w].v]]
            /\ UNCHANGED <<exists, op, nops, tmp, rd, judge>>
WRel2(w) == Step(w, "in2", "end") /\ WU(L2(w)) /\ UNCHANGED <<mems, op, nops, tmp, rd, judge>>
WEnd(w) == Step(w, "end", "idle") /\ poss' = PossEnd(poss, op[w].v, bt[w], t) /\ t' = t + 1
           /\ UNCHANGED <<lock, mems, op, nops, tmp, rd, bt, seen, last, bad>>

\* ---- readers
RStep(r, from, to) == rpc[r][1] = from /\ rpc' = [rpc EXCEPT ![r] = <<to, "">>]
RBegin(r) == RStep(r, "idle", "lock1") /\ seen' = [seen EXCEPT ![r] = SeenNow(poss)]
             /\ UNCHANGED <<lock, mems, wrs, todo, names, copy, t, bt, poss, last, bad>>
RLock1(r) == RStep(r, "lock1", "pick") /\ RL(L1, r) /\ todo' = [todo EXCEPT ![r] = exists]
             /\ UNCHANGED <<mems, wrs, names, copy, judge>>
RPick(r) == /\ rpc[r][1] = "pick" /\ todo[r] # {}
            /\ \E ns \in todo[r] :
                 /\ (IF NoLock2 THEN lock' = lock ELSE RL(<<"L2", ns>>, r))
                 /\ (Nested => CanR(L1))
                 /\ rpc' = [rpc EXCEPT ![r] = <<"copy", ns>>]
            /\ names' = [names EXCEPT ![r] = Names] /\ UNCHANGED <<mems, wrs, todo, copy, judge>>
RCopy(r) == /\ rpc[r][1] = "copy" /\ names[r] # {}
            /\ \E n \in names[r] : LET ns == rpc[r][2] IN
                 /\ copy' = [copy EXCEPT ![r][ns][n] = mem[ns][n]] /\ names' = [names EXCEPT ![r] = @ \ {n}]
            /\ UNCHANGED <<lock, mems, wrs, rpc, todo, judge>>
RNext(r) == /\ rpc[r][1] = "copy" /\ names[r] = {}
            /\ (IF NoLock2 THEN lock' = lock ELSE RU(<<"L2", rpc[r][2]>>, r))
            /\ todo' = [todo EXCEPT ![r] = @ \ {rpc[r][2]}] /\ rpc' = [rpc EXCEPT ![r] = <<"pick", "">>]
            /\ UNCHANGED <<mems, wrs, names, copy, judge>>
ROk(r) == IF Single THEN \A ns \in NSs : copy[r][ns] \in seen[r][ns]
          ELSE \A u \in Units : copy[r][u[1]][u[2]] \in seen[r][u]
REnd(r) == rpc[r][1] = "pick" /\ todo[r] = {} /\ RU(L1, r) /\ rpc' = [rpc EXCEPT ![r] = <<"done", "">>]
           /\ bad' = (IF ROk(r) THEN bad ELSE bad \cup {r})
           /\ UNCHANGED <<mems, wrs, todo, names, copy, t, bt, poss, seen, last>>

Done == (\A w \in Writers : pc[w] = "idle") /\ nops = MaxOps /\ (\A r \in Readers : rpc[r][1] = "done") /\ UNCHANGED vars
Next == \/ \E w \in Writers : \/ WBegin(w) \/ WAsk1(w) \/ WGot1(w) \/ WRel1(w) \/ WCopy(w)
                              \/ WAsk2(w) \/ WGot2(w) \/ WRel2(w) \/ WEnd(w)
        \/ \E r \in Readers : RBegin(r) \/ RLock1(r) \/ RPick(r) \/ RCopy(r) \/ RNext(r) \/ REnd(r)
        \/ Done
Spec == Init /\ [][Next]_vars

ReadsAreReal == bad = {}
\* when nothing is in progress, the memory is one of the values nobody can refuse
NothingLost == (\A w \in Writers : pc[w] = "idle") =>
                 \A u \in Units : (IF Single THEN mem[u] ELSE mem[u[1]][u[2]]) \in Vals(poss[u])
=============================================================================
