------------------------------ MODULE MCTasks ------------------------------
(* Several tasks (threads of the runtime) call function blocks and functions *)
(* at the same time. A call is not atomic: it reads what it needs, works,    *)
(* and writes. Each task has an instance of its own. As long as a call works *)
(* only on the instance and the arguments it is given, every result is the   *)
(* one the call gives alone (Alone), whatever the others do meanwhile; a     *)
(* call that keeps its intermediate result in a cell of the library          *)
(* (Shared) breaks that, already with two tasks and two calls.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Tasks, MaxCalls, Shared
INSTANCE Basics

VARIABLES inst, hist, pc, arg, work, cell
vars == <<inst, hist, pc, arg, work, cell>>
Init == /\ inst = [t \in Tasks |-> EdgeFresh]
        /\ hist = [t \in Tasks |-> <<>>]
        /\ pc = [t \in Tasks |-> "idle"]
        /\ arg = [t \in Tasks |-> FALSE]
        /\ work = [t \in Tasks |-> EdgeFresh]
        /\ cell = EdgeFresh
Begin(t) == /\ pc[t] = "idle" /\ Len(hist[t]) < MaxCalls
            /\ \E x \in BOOLEAN : arg' = [arg EXCEPT ![t] = x] /\ hist' = [hist EXCEPT ![t] = Append(@, x)]
            /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED <<inst, work, cell>>
Read(t) == /\ pc[t] = "read" /\ pc' = [pc EXCEPT ![t] = "write"]
           /\ IF Shared THEN cell' = RTrig(inst[t], arg[t]) /\ UNCHANGED work
              ELSE work' = [work EXCEPT ![t] = RTrig(inst[t], arg[t])] /\ UNCHANGED cell
           /\ UNCHANGED <<inst, hist, arg>>
Write(t) == /\ pc[t] = "write" /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ inst' = [inst EXCEPT ![t] = IF Shared THEN cell ELSE work[t]]
            /\ UNCHANGED <<hist, arg, work, cell>>
Next == \E t \in Tasks : Begin(t) \/ Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars

RECURSIVE After(_)
After(h) == IF h = <<>> THEN EdgeFresh ELSE RTrig(After(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])
Alone == \A t \in Tasks : pc[t] = "idle" => inst[t] = After(hist[t])
=============================================================================
