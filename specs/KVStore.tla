------------------------------ MODULE KVStore ------------------------------
(* The key-value storage as it is built: a map in memory guarded by a lock, *)
(* an append-only log on disk, a compaction into a side file on every open, *)
(* and a process that may be killed between any two steps.                  *)
(* InPlaceCompaction = TRUE models the design the code started from         *)
(* (truncate, then rewrite); TLC then finds the lost entries.               *)
EXTENDS KVOps
CONSTANTS Threads, Keys, Vals, MaxLog, MaxCrashes, InPlaceCompaction, Locking

VARIABLES mem,        \* map in memory (meaningful while up)
          file,       \* records of the database file
          side,       \* records of the side file of a running compaction
          ost,        \* "down" | "loaded" | "writing" | "up"
          todo,       \* keys the compaction still has to write
          lock,       \* holder of the mutex, or "none"
          pend,       \* per thread: the running call
          acked,      \* ghost: map given by the operations whose effect was applied
          crashes
vars == <<mem, file, side, ost, todo, lock, pend, acked, crashes>>

None == [st |-> "idle"]
Ops == [op : {"set"}, k : Keys, v : Vals, klen : {1}]
       \cup [op : {"set"}, k : {CHOOSE k \in Keys : TRUE}, v : {CHOOSE v \in Vals : TRUE}, klen : {MaxKeyLen + 1}]
       \cup [op : {"get", "has", "remove"}, k : Keys, v : {""}, klen : {1}]
       \cup [op : {"clear", "size"}, k : {""}, v : {""}, klen : {0}]

Init == /\ mem = EmptyMap /\ file = <<>> /\ side = <<>> /\ ost = "down" /\ todo = {}
        /\ lock = "none" /\ pend = [t \in Threads |-> None] /\ acked = EmptyMap /\ crashes = 0

(* ---- opening ---- *)
OpenLoad == /\ ost = "down" /\ ost' = "loaded" /\ mem' = Replay(file) /\ todo' = DOMAIN Replay(file)
            /\ side' = <<>>
            /\ file' = IF InPlaceCompaction THEN <<>> ELSE file
            /\ UNCHANGED <<lock, pend, acked, crashes>>
OpenWrite(k) == /\ ost = "loaded" /\ k \in todo /\ todo' = todo \ {k}
                /\ LET r == [type |-> "put", k |-> k, v |-> mem[k]] IN
                     IF InPlaceCompaction THEN file' = Append(file, r) /\ side' = side
                                          ELSE side' = Append(side, r) /\ file' = file
                /\ UNCHANGED <<mem, ost, lock, pend, acked, crashes>>
OpenDone == /\ ost = "loaded" /\ todo = {} /\ ost' = "up"
            /\ file' = IF InPlaceCompaction THEN file ELSE side    \* the atomic rename
            /\ side' = <<>>
            /\ UNCHANGED <<mem, todo, lock, pend, acked, crashes>>

(* ---- calls ---- *)
Call(t, o) == /\ ost = "up" /\ pend[t] = None
              /\ pend' = [pend EXCEPT ![t] = [st |-> "called", o |-> o, res |-> ""]]
              /\ UNCHANGED <<mem, file, side, ost, todo, lock, acked, crashes>>
Acquire(t) == /\ pend[t].st = "called" /\ (lock = "none" \/ ~Locking)
              /\ lock' = t /\ pend' = [pend EXCEPT ![t].st = "locked"]
              /\ UNCHANGED <<mem, file, side, ost, todo, acked, crashes>>
Log(t) == /\ pend[t].st = "locked" /\ file' = file \o OpRec(mem, pend[t].o)
          /\ pend' = [pend EXCEPT ![t].st = "logged"]
          /\ UNCHANGED <<mem, side, ost, todo, lock, acked, crashes>>
Apply(t) == /\ pend[t].st = "logged"
            /\ mem' = OpMem(mem, pend[t].o) /\ acked' = OpMem(acked, pend[t].o)
            /\ pend' = [pend EXCEPT ![t].st = "applied", ![t].res = OpRes(mem, pend[t].o)]
            /\ lock' = "none"
            /\ UNCHANGED <<file, side, ost, todo, crashes>>
Ret(t) == /\ pend[t].st = "applied" /\ pend' = [pend EXCEPT ![t] = None]
          /\ UNCHANGED <<mem, file, side, ost, todo, lock, acked, crashes>>

Close == /\ ost = "up" /\ \A t \in Threads : pend[t] = None
         /\ ost' = "down" /\ mem' = EmptyMap
         /\ UNCHANGED <<file, side, todo, lock, pend, acked, crashes>>

(* the process is killed between any two steps; the effect of a running      *)
(* call survives exactly when its record was written                         *)
Crash == /\ ost # "down" /\ crashes < MaxCrashes /\ crashes' = crashes + 1
         /\ ost' = "down" /\ mem' = EmptyMap /\ side' = <<>> /\ todo' = {} /\ lock' = "none"
         /\ pend' = [t \in Threads |-> None]
         /\ acked' = IF \E t \in Threads : pend[t].st = "logged"
                     THEN OpMem(acked, pend[CHOOSE t \in Threads : pend[t].st = "logged"].o) ELSE acked
         /\ UNCHANGED file

Next == \/ OpenLoad \/ OpenDone \/ Close \/ Crash
        \/ \E k \in Keys : OpenWrite(k)
        \/ \E t \in Threads : Acquire(t) \/ Log(t) \/ Apply(t) \/ Ret(t)
        \/ \E t \in Threads, o \in Ops : Call(t, o)
Spec == Init /\ [][Next]_vars

Bound == Len(file) <= MaxLog

(* ---- properties ---- *)
Running(s) == {t \in Threads : pend[t].st = s}
(* K01: an open, idle storage holds what the file holds *)
MemMatchesFile == (ost = "up" /\ Running("logged") = {}) => mem = Replay(file)
(* K02: the file always holds the acknowledged contents, or those plus the operation being applied *)
NothingLost == \/ Replay(file) = acked
               \/ \E t \in Running("logged") : Replay(file) = OpMem(acked, pend[t].o)
(* K04: at most one call between its lock and its effect, so effects are atomic *)
MutualExclusion == Cardinality(Running("locked") \cup Running("logged")) <= 1
(* a loaded storage serves exactly the acknowledged contents *)
LoadedMatches == ost = "loaded" => mem = acked
=============================================================================
