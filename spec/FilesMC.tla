------------------------------ MODULE FilesMC ------------------------------
(* Two designs, every order of operations, failures and crashes:
   - an atomic update of a memory mapped vector (files main, bak, tmp);
   - a pair of an item file and an index file, where index writes are buffered until the next operation. *)
EXTENDS Files
CONSTANTS Max, Lengths, Mode, Flush   \* Flush: shrinking operations write the count through
VARIABLES disk, mem, pc, new, ops, seqm, items, idx, buf, hist
vars == <<disk, mem, pc, new, ops, seqm, items, idx, buf, hist>>
(* mem: what the running process answers (-1: there is none); pc: step of an update in progress, 0: none *)
Init == /\ disk = Disk(Has(0), None, None) /\ mem = 0 /\ pc = 0 /\ new = 0 /\ ops = 0
        /\ seqm = <<>> /\ items = <<>> /\ idx = <<0, <<>>>> /\ buf = <<>> /\ hist = <<<<>>, <<>>>>
UpdateU == UNCHANGED <<seqm, items, idx, buf, hist>>
Begin == pc = 0 /\ mem # -1 /\ ops < Max /\ ops' = ops + 1 /\ new' = ops + 1 /\ pc' = 1 /\ UNCHANGED <<disk, mem>> /\ UpdateU
Go == /\ pc \in 1 .. Len(Steps)
      /\ disk' = Step(disk, pc, new) /\ pc' = IF pc = Len(Steps) THEN 0 ELSE pc + 1
      /\ mem' = IF Steps[pc] = "take over" THEN new ELSE mem
      /\ UNCHANGED <<new, ops>> /\ UpdateU
Fail == /\ pc \in 1 .. Len(Steps) /\ pc' = 0 /\ UNCHANGED <<mem, new, ops>> /\ UpdateU
        /\ \/ Steps[pc] \in {"forget bak", "forget tmp", "write", "drop bak"} /\ disk' = disk
           \/ Steps[pc] = "set aside" /\ disk' = [disk EXCEPT !.tmp = None]
           \/ Steps[pc] = "take over" /\ disk' \in {Repaired(disk), [disk EXCEPT !.tmp = None]}     \* the repair can fail too; then no further update is tried
Crash == mem # -1 /\ mem' = -1 /\ UNCHANGED <<disk, pc, new, ops>> /\ UpdateU
Restart == /\ mem = -1 /\ disk' = AfterOpen(disk) /\ mem' = Recovered(disk)[2] /\ pc' = 0 /\ UNCHANGED <<new, ops>> /\ UpdateU
BeginOk == disk.main # None   \* an instance that lost its name refuses updates
(* ---- item file: position -> item; index: count and lengths; buf: the count not yet written ---- *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Offset(ls, n) == Sum(SubSeq(ls, 1, n))
Put(f, at, it) == [p \in 1 .. (IF at + it.n > Len(f) THEN at + it.n ELSE Len(f)) |-> IF p > at /\ p <= at + it.n THEN <<it.v, p - at, it.n>> ELSE IF p <= Len(f) THEN f[p] ELSE <<0, 0, 0>>]
PutLen(ls, n, x) == [k \in 1 .. (IF n > Len(ls) THEN n ELSE Len(ls)) |-> IF k = n THEN x ELSE ls[k]]
Lens(s) == [k \in 1 .. Len(s) |-> s[k].n]
(* reading an item: bytes from its offset as long as they belong together *)
Read(f, at) == IF at + 1 > Len(f) \/ f[at + 1][2] # 1 THEN <<0>> ELSE IF at + f[at + 1][3] > Len(f) \/ \E q \in 1 .. f[at + 1][3] : f[at + q] # <<f[at + 1][1], q, f[at + 1][3]>> THEN <<0>> ELSE <<f[at + 1][1]>>
Reopened(f, x) == [k \in 1 .. x[1] |-> Read(f, Offset(x[2], k - 1))]
Vals(s) == [k \in 1 .. Len(s) |-> <<s[k].v>>]
Flushed == IF buf = <<>> THEN idx ELSE <<buf[1], idx[2]>>
Other == UNCHANGED <<disk, mem, new>>
SeqOp(s2) == seqm' = s2 /\ hist' = <<seqm, s2>> /\ ops' = ops + 1 /\ pc' = 0 /\ Other
(* phase 1 of a push writes the item through; phase 2 the index: lengths first, the count stays in the buffer *)
PushItem(n) == LET at == Offset(Lens(seqm), Len(seqm)) it == [v |-> ops + 1, n |-> n] IN
  /\ pc = 0 /\ ops < Max /\ items' = Put(items, at, it) /\ UNCHANGED <<idx, buf, seqm, ops>> /\ hist' = <<hist[1], seqm, Append(seqm, it)>> /\ pc' = n /\ Other
PushIdx(n) == LET at == Offset(Lens(seqm), Len(seqm)) it == [v |-> ops + 1, n |-> n] IN
  /\ pc = n /\ UNCHANGED items /\ idx' = <<Flushed[1], PutLen(Flushed[2], Len(seqm) + 1, n)>> /\ buf' = <<Len(seqm) + 1>> /\ SeqOp(Append(seqm, it))
PopS == pc = 0 /\ ops < Max /\ seqm # <<>> /\ idx' = (IF Flush THEN <<Len(seqm) - 1, idx[2]>> ELSE Flushed) /\ buf' = (IF Flush THEN <<>> ELSE <<Len(seqm) - 1>>) /\ UNCHANGED items /\ SeqOp(SubSeq(seqm, 1, Len(seqm) - 1))
ClearS == pc = 0 /\ ops < Max /\ idx' = (IF Flush THEN <<0, Flushed[2]>> ELSE Flushed) /\ buf' = (IF Flush THEN <<>> ELSE <<0>>) /\ UNCHANGED items /\ SeqOp(<<>>)
(* a new process reads what is there; a damaged item is 0 *)
RestartS == /\ buf' = <<>> /\ seqm' = [k \in 1 .. idx[1] |-> [v |-> Read(items, Offset(idx[2], k - 1))[1], n |-> idx[2][k]]] /\ hist' = <<seqm', seqm'>> /\ pc' = 0 /\ UNCHANGED <<items, idx, ops>> /\ Other
UpdateNext == (BeginOk /\ Begin) \/ Go \/ Fail \/ Crash \/ Restart
PairNext == (\E n \in Lengths : PushItem(n) \/ PushIdx(n)) \/ PopS \/ ClearS \/ RestartS
Next == IF Mode = "update" THEN UpdateNext ELSE PairNext
Spec == Init /\ [][Next]_vars
(* ---- what has to hold ---- *)
AtomicUpdate == LET r == Recovered(disk) IN
  /\ r # None
  /\ mem # -1 /\ pc = 0 => r = Has(mem)                           \* between operations: exactly what the process answers
  /\ pc # 0 => r \in {Has(mem), Has(new)} \/ mem = -1
NothingInvented == \A x \in {disk.main, disk.bak, disk.tmp} : x = None \/ x[2] \in 0 .. Max
(* a process that dies finds the sequence, the one before the last operation, or the one the operation in progress makes *)
PairCrash == Reopened(items, idx) \in {Vals(seqm)} \cup {Vals(hist[k]) : k \in 1 .. Len(hist)}
==============================================================================
