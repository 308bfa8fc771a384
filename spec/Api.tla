---------------------------------- MODULE Api ----------------------------------
(* What an API call may do: a call is checked, in any order of its checks, and *)
(* then either takes effect as a whole, or is rejected with the error that the *)
(* OpenCL specification names for one of its defects; a rejected call notifies *)
(* its context once and has no effect.                                         *)
(* Table: for every function, the defects a call to it can have. p are the     *)
(* parameters a defect is in (two defects in different parameters can be in    *)
(* one call), c the code for it, n whether the context is known to the call    *)
(* (it is not when the handle it would be taken from is the defect).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
E(d, p, c) == [d |-> d, p |-> {p}, c |-> c, n |-> TRUE]
E2(d, p, c) == [d |-> d, p |-> p, c |-> c, n |-> TRUE]
N(d, p, c) == [d |-> d, p |-> {p}, c |-> c, n |-> FALSE]
IV == "INVALID_VALUE"
IMO == "INVALID_MEM_OBJECT"
IO == "INVALID_OPERATION"
Q0 == <<N("q0", "q", "INVALID_COMMAND_QUEUE")>>
WL == <<E("w_null", "w", "INVALID_EVENT_WAIT_LIST"), E("w_num0", "w", "INVALID_EVENT_WAIT_LIST"), E("w_elem0", "w", "INVALID_EVENT_WAIT_LIST"), E("w_ctx", "w", "INVALID_CONTEXT")>>
Enq(ds) == Q0 \o ds \o WL
Ptr0 == <<E("ptr0", "ptr", IV)>>
Buf0(p) == <<E("b0" \o p, p, IMO)>>
(* ranges outside a buffer of 64 bytes *)
Outside(p) == <<E("past" \o p, "r" \o p, IV), E("end" \o p, "r" \o p, IV), E("wrap" \o p, "r" \o p, IV)>>
NoRead == <<E("hostno", "b", IO), E("hostwo", "b", IO)>>
NoWrite == <<E("hostno", "b", IO), E("hostro", "b", IO)>>
(* rectangles: regions outside the buffer, pitches smaller than what they hold *)
Rect(p, r) == <<E2("far" \o p, {p \o "o"}, IV), E2("row" \o p, {p \o "p", "g"}, IV), E2("slice" \o p, {p \o "p", "g"}, IV)>>
Region(i) == <<E2("ox" \o i, {i \o "o"}, IV), E2("oy" \o i, {i \o "o"}, IV), E2("oz" \o i, {i \o "o"}, IV), E2("gz" \o i, {"g"}, IV), E2("gx" \o i, {"g", i \o "o"}, IV), E2("wrap" \o i, {i \o "o"}, IV)>>
Info(code) == <<N("h0", "h", code), E("what", "what", IV), E("small", "what", IV)>>
BuildDefects == <<N("h0", "h", "INVALID_PROGRAM"), E("dev_null", "dev", IV), E("dev_num0", "dev", IV), E("dev_elem0", "dev", "INVALID_DEVICE"), E("data", "cb", IV), E("kernels", "h", IO)>>
Table == <<
 [f |-> "clGetPlatformIDs", ds |-> << >>],
 [f |-> "clGetPlatformInfo", ds |-> <<N("what", "what", IV), N("small", "what", IV)>>],
 [f |-> "clGetDeviceIDs", ds |-> <<N("none", "n", IV), N("type", "type", "DEVICE_NOT_FOUND")>>],
 [f |-> "clGetDeviceInfo", ds |-> <<N("h0", "h", "INVALID_DEVICE"), N("what", "what", IV), N("small", "what", IV)>>],
 [f |-> "clCreateSubDevices", ds |-> <<N("any", "any", IV)>>],
 [f |-> "clCreateContext", ds |-> <<N("num", "dev", IV), N("dev0", "dev", IV), N("badev", "dev", "INVALID_DEVICE"), N("data", "cb", IV)>>],
 [f |-> "clCreateContextFromType", ds |-> <<N("data", "cb", IV), N("type", "dev", "DEVICE_NOT_FOUND")>>],
 [f |-> "clRetainContext", ds |-> <<N("h0", "h", "INVALID_CONTEXT")>>],
 [f |-> "clReleaseContext", ds |-> <<N("h0", "h", "INVALID_CONTEXT")>>],
 [f |-> "clGetContextInfo", ds |-> Info("INVALID_CONTEXT")],
 [f |-> "clSetContextDestructorCallback", ds |-> <<N("h0", "h", "INVALID_CONTEXT"), E("fn0", "fn", IV)>>],
 [f |-> "clCreateCommandQueue", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("dev", "dev", "INVALID_DEVICE"), E("props", "props", IV)>>],
 [f |-> "clCreateCommandQueueWithProperties", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("dev", "dev", "INVALID_DEVICE"), E("ondev", "props", "INVALID_QUEUE_PROPERTIES"), E("size", "props", IV), E("unknown", "props", IV)>>],
 [f |-> "clRetainCommandQueue", ds |-> <<N("h0", "h", "INVALID_COMMAND_QUEUE")>>],
 [f |-> "clReleaseCommandQueue", ds |-> <<N("h0", "h", "INVALID_COMMAND_QUEUE")>>],
 [f |-> "clGetCommandQueueInfo", ds |-> Info("INVALID_COMMAND_QUEUE") \o <<E("ondevsize", "what", "INVALID_COMMAND_QUEUE")>>],
 [f |-> "clCreateBuffer", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("size0", "size", "INVALID_BUFFER_SIZE"), E("hostextra", "host", "INVALID_HOST_PTR"), E("hostmissing", "host", "INVALID_HOST_PTR"), E("usemissing", "host", "INVALID_HOST_PTR"), E("usecopy", "host", IV), E("usealloc", "host", IV)>>],
 [f |-> "clCreateBufferWithProperties", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("size0", "size", "INVALID_BUFFER_SIZE"), E("hostextra", "host", "INVALID_HOST_PTR"), E("usecopy", "host", IV), E("props", "props", "INVALID_PROPERTY")>>],
 [f |-> "clCreateSubBuffer", ds |-> <<N("b0", "b", IMO), E("sub", "b", IMO), E("type", "type", IV), E("info0", "r", IV), E("past", "r", IV), E("wrap", "r", IV), E("size0", "r", "INVALID_BUFFER_SIZE")>>],
 [f |-> "clCreateImage", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("fmt0", "fmt", "INVALID_IMAGE_FORMAT_DESCRIPTOR"), E("desc0", "desc", "INVALID_IMAGE_DESCRIPTOR"), E("pitch", "desc", "INVALID_IMAGE_DESCRIPTOR"), E("big", "desc", "INVALID_IMAGE_DESCRIPTOR")>>],
 [f |-> "clCreateImageWithProperties", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("fmt0", "fmt", "INVALID_IMAGE_FORMAT_DESCRIPTOR"), E("desc0", "desc", "INVALID_IMAGE_DESCRIPTOR"), E("props", "props", "INVALID_PROPERTY")>>],
 [f |-> "clRetainMemObject", ds |-> <<N("h0", "h", IMO)>>],
 [f |-> "clReleaseMemObject", ds |-> <<N("h0", "h", IMO)>>],
 [f |-> "clGetSupportedImageFormats", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("none", "n", IV)>>],
 [f |-> "clGetMemObjectInfo", ds |-> Info(IMO)],
 [f |-> "clGetImageInfo", ds |-> Info(IMO)],
 [f |-> "clSetMemObjectDestructorCallback", ds |-> <<N("h0", "h", IMO), E("fn0", "fn", IV)>>],
 [f |-> "clCreateSampler", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("addr", "addr", IV), E("filter", "filter", IV)>>],
 [f |-> "clCreateSamplerWithProperties", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("addr", "props", IV), E("filter", "props", IV), E("unknown", "props", IV)>>],
 [f |-> "clRetainSampler", ds |-> <<N("h0", "h", "INVALID_SAMPLER")>>],
 [f |-> "clReleaseSampler", ds |-> <<N("h0", "h", "INVALID_SAMPLER")>>],
 [f |-> "clGetSamplerInfo", ds |-> Info("INVALID_SAMPLER")],
 [f |-> "clCreateProgramWithSource", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("count0", "n", IV), E("strings0", "s", IV), E("elem0", "s", IV)>>],
 [f |-> "clCreateProgramWithBinary", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("num", "dev", IV), E("dev0", "dev", IV), E("len0", "len", IV), E("bin0", "bin", IV), E("badev", "dev", "INVALID_DEVICE"), E("badbin", "bin", "INVALID_BINARY")>>],
 [f |-> "clCreateProgramWithBuiltInKernels", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("any", "x", IV)>>],
 [f |-> "clRetainProgram", ds |-> <<N("h0", "h", "INVALID_PROGRAM")>>],
 [f |-> "clReleaseProgram", ds |-> <<N("h0", "h", "INVALID_PROGRAM")>>],
 [f |-> "clBuildProgram", ds |-> BuildDefects \o <<E("broken", "h", "BUILD_PROGRAM_FAILURE")>>],
 [f |-> "clCompileProgram", ds |-> BuildDefects \o <<E("broken", "h", "COMPILE_PROGRAM_FAILURE"), E("hdr_null", "hdr", IV), E("hdr_names", "hdr", IV), E("hdr_elem0", "hdr", "INVALID_PROGRAM")>>],
 [f |-> "clLinkProgram", ds |-> <<N("c0", "c", "INVALID_CONTEXT"), E("dev_null", "dev", IV), E("dev_num0", "dev", IV), E("dev_elem0", "dev", "INVALID_DEVICE"), E("data", "cb", IV), E("none", "in", IV), E("in0", "in", IV), E("elem0", "in", "INVALID_PROGRAM"), E("unbuilt", "in", IO)>>],
 [f |-> "clGetProgramInfo", ds |-> Info("INVALID_PROGRAM") \o <<E2("numk", {"h", "what"}, "INVALID_PROGRAM_EXECUTABLE"), E2("names", {"h", "what"}, "INVALID_PROGRAM_EXECUTABLE")>>],
 [f |-> "clGetProgramBuildInfo", ds |-> Info("INVALID_PROGRAM")],
 [f |-> "clCreateKernel", ds |-> <<N("h0", "h", "INVALID_PROGRAM"), E("name0", "name", IV), E("unknown", "name", "INVALID_KERNEL_NAME"), E("unbuilt", "h", "INVALID_PROGRAM_EXECUTABLE"), E("failed", "h", "INVALID_PROGRAM_EXECUTABLE")>>],
 [f |-> "clCreateKernelsInProgram", ds |-> <<N("h0", "h", "INVALID_PROGRAM"), E("few", "n", IV), E("unbuilt", "h", "INVALID_PROGRAM_EXECUTABLE")>>],
 [f |-> "clRetainKernel", ds |-> <<N("h0", "h", "INVALID_KERNEL")>>],
 [f |-> "clReleaseKernel", ds |-> <<N("h0", "h", "INVALID_KERNEL")>>],
 [f |-> "clCloneKernel", ds |-> <<N("h0", "h", "INVALID_KERNEL")>>],
 [f |-> "clSetKernelArg", ds |-> <<N("h0", "h", "INVALID_KERNEL"), E("index", "i", "INVALID_ARG_INDEX"), E("index2", "i", "INVALID_ARG_INDEX"), E("vsize", "i", "INVALID_ARG_SIZE"), E("vsize2", "i", "INVALID_ARG_SIZE"), E("msize", "i", "INVALID_ARG_SIZE"), E("vnull", "i", "INVALID_ARG_VALUE"), E("lsize", "i", "INVALID_ARG_SIZE"), E("lvalue", "i", "INVALID_ARG_VALUE"),
     E("isize", "i", "INVALID_ARG_SIZE"), E("snull", "i", "INVALID_SAMPLER"), E("szero", "i", "INVALID_SAMPLER"), E("ssize", "i", "INVALID_ARG_SIZE")>>],
 [f |-> "clGetKernelInfo", ds |-> Info("INVALID_KERNEL")],
 [f |-> "clGetKernelArgInfo", ds |-> Info("INVALID_KERNEL") \o <<E("index", "i", "INVALID_ARG_INDEX")>>],
 [f |-> "clGetKernelWorkGroupInfo", ds |-> Info("INVALID_KERNEL") \o <<E("dev0", "dev", "INVALID_DEVICE"), E("gws", "what", IV)>>],
 [f |-> "clWaitForEvents", ds |-> <<N("none", "n", IV), N("list0", "l", IV), E("failed", "l", "EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST")>>],
 [f |-> "clGetEventInfo", ds |-> Info("INVALID_EVENT")],
 [f |-> "clCreateUserEvent", ds |-> <<N("c0", "c", "INVALID_CONTEXT")>>],
 [f |-> "clRetainEvent", ds |-> <<N("h0", "h", "INVALID_EVENT")>>],
 [f |-> "clReleaseEvent", ds |-> <<N("h0", "h", "INVALID_EVENT")>>],
 [f |-> "clSetUserEventStatus", ds |-> <<N("h0", "h", "INVALID_EVENT"), E("command", "h", "INVALID_EVENT"), E("positive", "s", IV), E("again", "h", IO), E("againfailed", "h", IO)>>],
 [f |-> "clSetEventCallback", ds |-> <<N("h0", "h", "INVALID_EVENT"), E("fn0", "fn", IV), E("type", "type", IV), E("type2", "type", IV)>>],
 [f |-> "clGetEventProfilingInfo", ds |-> Info("INVALID_EVENT") \o <<E("user", "h", "PROFILING_INFO_NOT_AVAILABLE")>>],
 [f |-> "clFlush", ds |-> <<N("h0", "h", "INVALID_COMMAND_QUEUE")>>],
 [f |-> "clFinish", ds |-> <<N("h0", "h", "INVALID_COMMAND_QUEUE")>>],
 [f |-> "clEnqueueReadBuffer", ds |-> Enq(Buf0("b") \o Ptr0 \o Outside("b") \o NoRead)],
 [f |-> "clEnqueueWriteBuffer", ds |-> Enq(Buf0("b") \o Ptr0 \o Outside("b") \o NoWrite)],
 [f |-> "clEnqueueReadBufferRect", ds |-> Enq(Buf0("b") \o Ptr0 \o NoRead \o Rect("b", "b") \o Rect("h", "h"))],
 [f |-> "clEnqueueWriteBufferRect", ds |-> Enq(Buf0("b") \o Ptr0 \o NoWrite \o Rect("b", "b") \o Rect("h", "h"))],
 [f |-> "clEnqueueCopyBuffer", ds |-> Enq(Buf0("a") \o Buf0("b") \o Outside("a") \o Outside("b") \o <<E2("overlap", {"a", "b", "ra", "rb"}, "MEM_COPY_OVERLAP"), E2("overlap2", {"a", "b", "ra", "rb"}, "MEM_COPY_OVERLAP"), E2("overlapsub", {"a", "b", "ra", "rb"}, "MEM_COPY_OVERLAP")>>)],
 [f |-> "clEnqueueCopyBufferRect", ds |-> Enq(Buf0("a") \o Buf0("b") \o Rect("a", "a") \o Rect("b", "b") \o <<E2("overlap", {"a", "b", "ao", "bo", "ap", "bp", "g"}, "MEM_COPY_OVERLAP")>>)],
 [f |-> "clEnqueueFillBuffer", ds |-> Enq(Buf0("b") \o Outside("b") \o <<E("pat0", "pat", IV), E("psize0", "ps", IV), E("offalign", "rb", IV), E("sizealign", "rb", IV)>>)],
 [f |-> "clEnqueueFillImage", ds |-> Enq(Buf0("i") \o Region("i") \o <<E("color0", "ptr", IV)>>)],
 [f |-> "clEnqueueReadImage", ds |-> Enq(Buf0("i") \o Region("i") \o <<E("slice", "pitch", IV)>>)],
 [f |-> "clEnqueueWriteImage", ds |-> Enq(Buf0("i") \o Region("i") \o <<E("slice", "pitch", IV)>>)],
 [f |-> "clEnqueueCopyImage", ds |-> Enq(Buf0("i") \o Buf0("j") \o Region("i") \o Region("j") \o <<E("order", "j", "IMAGE_FORMAT_MISMATCH"), E("type", "j", "IMAGE_FORMAT_MISMATCH")>>)],
 [f |-> "clEnqueueCopyImageToBuffer", ds |-> Enq(Buf0("i") \o Buf0("b") \o Region("i"))],
 [f |-> "clEnqueueCopyBufferToImage", ds |-> Enq(Buf0("i") \o Buf0("b") \o Region("i"))],
 [f |-> "clEnqueueMapBuffer", ds |-> Enq(Buf0("b") \o Outside("b") \o <<E2("nowrite", {"b", "flags"}, IO), E2("nowrite2", {"b", "flags"}, IO), E2("noread", {"b", "flags"}, IO), E2("noread2", {"b", "flags"}, IO)>>)],
 [f |-> "clEnqueueMapImage", ds |-> Enq(Buf0("i") \o Region("i") \o <<E("pitch0", "pitch", IV), E2("nowrite", {"i", "flags"}, IO), E2("noread", {"i", "flags"}, IO)>>)],
 [f |-> "clEnqueueUnmapMemObject", ds |-> Enq(Buf0("b") \o Ptr0)],
 [f |-> "clEnqueueMigrateMemObjects", ds |-> Q0 \o WL],
 [f |-> "clEnqueueNDRangeKernel", ds |-> Enq(<<E("k0", "k", "INVALID_KERNEL"), E("dim0", "dim", "INVALID_WORK_DIMENSION"), E("dim4", "dim", "INVALID_WORK_DIMENSION"), E("local0", "l", "INVALID_WORK_GROUP_SIZE"), E("uneven", "l", "INVALID_WORK_GROUP_SIZE"), E2("item", {"g", "l"}, "INVALID_WORK_ITEM_SIZE"), E2("group", {"g", "l"}, "INVALID_WORK_GROUP_SIZE"),
     E2("reqd", {"k", "l"}, "INVALID_WORK_GROUP_SIZE"), E2("reqd2", {"k", "l"}, "INVALID_WORK_GROUP_SIZE"), E("unset", "k", "INVALID_KERNEL_ARGS"), E("biglocal", "k", "OUT_OF_RESOURCES")>>)],
 [f |-> "clEnqueueTask", ds |-> Enq(<<E("k0", "k", "INVALID_KERNEL"), E("unset", "k", "INVALID_KERNEL_ARGS"), E("reqd", "k", "INVALID_WORK_GROUP_SIZE"), E("biglocal", "k", "OUT_OF_RESOURCES")>>)],
 [f |-> "clEnqueueNativeKernel", ds |-> Enq(<<E("fn0", "fn", IV), E2("args0", {"args"}, IV), E2("args0size", {"args"}, IV), E2("argssize0", {"args", "mem"}, IV), E2("mem0", {"mem"}, IV), E2("loc0", {"mem"}, IV), E2("num0", {"mem"}, IV), E2("num0loc", {"mem"}, IV), E2("elem0", {"mem"}, IMO)>>)],
 [f |-> "clEnqueueMarkerWithWaitList", ds |-> Enq(<<>>)],
 [f |-> "clEnqueueBarrierWithWaitList", ds |-> Enq(<<>>)],
 [f |-> "clEnqueueMarker", ds |-> Q0],
 [f |-> "clEnqueueBarrier", ds |-> Q0],
 [f |-> "clEnqueueWaitForEvents", ds |-> Q0]
>>
(* the combinations of defects a call to a function can have *)
Separate(S, ds) == \A i, j \in S : i = j \/ ds[i].p \cap ds[j].p = {}
Combos(ds) == {S \in {{}} \cup {{i, j} : i, j \in 1..Len(ds)} : Separate(S, ds)}
(* what such a call may return, and how often its context may be notified *)
Codes(ds, S) == IF S = {} THEN {"SUCCESS"} ELSE {ds[i].c : i \in S}
Notices(ds, S) == IF S = {} THEN {0} ELSE {IF ds[i].n THEN 1 ELSE 0 : i \in S}
(* what an accepted call that changes memory does to a sequence of bytes *)
Put(s, off, v) == [i \in 1..Len(s) |-> IF i > off /\ i <= off + Len(v) THEN v[i - off] ELSE s[i]]
================================================================================
