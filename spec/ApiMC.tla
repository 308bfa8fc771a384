--------------------------------- MODULE ApiMC ---------------------------------
(* A history of calls, each checked in any order of its checks. world is what  *)
(* the calls work on, ideal what it would be had the rejected calls not been   *)
(* made.                                                                       *)
EXTENDS Api
CONSTANTS MaxCalls, Family
Used == {i \in 1..Len(Table) : i % 11 = Family}
VARIABLES world, ideal, told, call, calls
vars == <<world, ideal, told, call, calls>>
Nil == [f |-> 0]
Init == world = 0 /\ ideal = 0 /\ told = <<>> /\ call = Nil /\ calls = 0
Start == call = Nil /\ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<world, ideal, told>>
         /\ \E f \in Used : \E S \in Combos(Table[f].ds) : call' = [f |-> f, S |-> S, todo |-> 1..Len(Table[f].ds), before |-> world, res |-> "none", n |-> 0]
Ds == Table[call.f].ds
Open == call # Nil /\ call.res = "none"
Check == Open /\ call.todo # {} /\ UNCHANGED <<world, ideal, told, calls>>
         /\ \/ \E i \in call.S : call' = [call EXCEPT !.res = Ds[i].c, !.n = IF Ds[i].n THEN 1 ELSE 0, !.todo = {}]
            \/ call' = [call EXCEPT !.todo = @ \cap call.S] /\ call.todo # call.S     \* checks that pass do nothing, in whatever order they come
(* only a call that passed all its checks takes effect *)
Commit == Open /\ call.todo = {} /\ world' = world + 1 /\ ideal' = ideal + 1 /\ call' = [call EXCEPT !.res = "SUCCESS"] /\ UNCHANGED <<told, calls>>
Finish == call # Nil /\ call.res # "none" /\ call' = Nil /\ UNCHANGED <<world, ideal, calls>>
          /\ told' = IF call.n = 0 THEN told ELSE Append(told, call.res)
Next == Start \/ Check \/ Commit \/ Finish
Spec == Init /\ [][Next]_vars
Erasable == world = ideal
Judged == call # Nil /\ call.res # "none" => /\ call.res \in Codes(Ds, call.S) /\ call.n \in Notices(Ds, call.S)
                                              /\ (call.res = "SUCCESS") = (call.S = {}) /\ (call.res # "SUCCESS" => world = call.before)
Quiet == Len(told) <= calls
(* every defect of the table has a documented code, and every function a valid call *)
Known == {"INVALID_VALUE", "INVALID_MEM_OBJECT", "INVALID_OPERATION", "INVALID_COMMAND_QUEUE", "INVALID_EVENT_WAIT_LIST", "INVALID_CONTEXT", "INVALID_DEVICE", "DEVICE_NOT_FOUND", "INVALID_QUEUE_PROPERTIES", "INVALID_BUFFER_SIZE", "INVALID_HOST_PTR", "INVALID_PROPERTY",
  "INVALID_IMAGE_FORMAT_DESCRIPTOR", "INVALID_IMAGE_DESCRIPTOR", "INVALID_SAMPLER", "INVALID_BINARY", "INVALID_PROGRAM", "BUILD_PROGRAM_FAILURE", "COMPILE_PROGRAM_FAILURE", "INVALID_PROGRAM_EXECUTABLE", "INVALID_KERNEL_NAME", "INVALID_KERNEL", "INVALID_ARG_INDEX", "INVALID_ARG_SIZE",
  "INVALID_ARG_VALUE", "EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST", "INVALID_EVENT", "PROFILING_INFO_NOT_AVAILABLE", "MEM_COPY_OVERLAP", "IMAGE_FORMAT_MISMATCH", "INVALID_WORK_DIMENSION", "INVALID_WORK_GROUP_SIZE", "INVALID_WORK_ITEM_SIZE", "INVALID_KERNEL_ARGS", "OUT_OF_RESOURCES"}
ASSUME \A t \in 1..Len(Table) : \A i \in 1..Len(Table[t].ds) : Table[t].ds[i].c \in Known /\ \A j \in 1..Len(Table[t].ds) : i # j => Table[t].ds[i].d # Table[t].ds[j].d
ASSUME \A t, u \in 1..Len(Table) : t # u => Table[t].f # Table[u].f
================================================================================
