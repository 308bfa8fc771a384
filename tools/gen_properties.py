#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays consistent)."""
import json, os
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if obs: a["observe_at"]=[obs]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
R="src/runtime/runtime.cpp"; AQ="src/runtime/async_queue.cpp"; Q="src/core/Queue.cpp"
M="src/core/Memory.cpp"; KI="src/core/KernelInvocation.cpp"; WG="src/core/WorkGroup.cpp"; WI="src/core/WorkItem.cpp"; WB="src/core/WorkItemBuiltins.cpp"
K="src/core/Kernel.cpp"; PR="src/core/Program.cpp"; CO="src/core/common.cpp"; CX="src/core/Context.cpp"
p("Q01","Commands execute exactly once and only after everything they wait for",
 "Every command accepted by a queue takes effect exactly once, and not before every event in its wait list is complete, every earlier command of an in-order queue is complete, and every earlier barrier of its queue is complete (a barrier or marker without a wait list itself waits for all earlier commands). When clFinish, a blocking call, clWaitForEvents or the final release of a queue returns, every command it has to wait for has taken effect or terminated.",
 ["histories","schedules"],"for every sequence of enqueues over any mix of in-order and out-of-order queues, wait lists, user events and synchronisation calls",
 "The multi-queue test runs three fixed programs; ordering must hold for every dependency graph over every mix of queues and sync points.",
 [Q,AQ,R],[("recursive execution of wait lists","Queue::execute"),("flush","Queue::finish"),("wait list capture","asyncEnqueue"),("synchronisation","clFinish, clWaitForEvents")],
 [("m_queue","commands accepted and not yet executed"),("waitList","events a command still waits for")],"order of the effects of commands, seen through native kernels, plugin notifications and event status")
p("Q02","Event status, callbacks, user events and failures propagate correctly",
 "An event's status only moves forward (queued, submitted, running, then complete or a negative error) and never changes once terminal; a user event is set exactly once, and a callback registered on an event fires exactly once with the terminal status, also when it is registered after the event ended. If an event in a command's wait list ends with an error, the command never takes effect, ends with a negative status itself, and commands that do not depend on it are unaffected; waiting on a failed event reports CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST. Profiling times of a completed command satisfy queued <= submit <= start <= end.",
 ["histories","fault_sequences"],"for every history of enqueues, user-event completions with success or error, callbacks, status queries and waits",
 "No existing test sets a user event to an error, registers a callback, or reads an event status.",
 [Q,AQ,R],[("failure of a wait-list event","Queue::execute"),("callbacks","asyncQueueRelease, clSetUserEventStatus, clSetEventCallback"),("waiting","clWaitForEvents")],
 [("Event::state","execution status"),("callbacks","functions to call at the end")],"clGetEventInfo, callbacks, clGetEventProfilingInfo, clWaitForEvents")
p("Q03","Objects live exactly as long as they are referenced",
 "A context, queue, memory object, program, kernel, sampler or event stays usable, with the reference count the history implies, until its last reference (from the application, from a pending command, a sub-buffer, an image over a buffer, or a child object) is gone, and is destroyed then and not later. Destruction calls every registered destructor callback exactly once, newest first, and returns the object's memory to the device.",
 ["histories"],"for every history of creates, retains, releases, sub-object creation, enqueues and flushes",
 "Existing tests release everything in one order and never look at reference counts or destructor callbacks.",
 [R,AQ,M],[("reference counting","clRetain*/clRelease*"),("pending commands","asyncQueueRetain, asyncQueueRelease"),("destructor callbacks","clSetMemObjectDestructorCallback, clSetContextDestructorCallback")],
 [("refCount","references to an object"),("memObjectMap/kernelMap/waitListMap","references held by pending commands")],"reference count queries, destructor callbacks, plugin memory allocation notifications")
p("Q04","A kernel runs with the argument values it had when it was enqueued",
 "Each enqueued kernel observes exactly the argument values (scalars, vectors, structs, buffers, sub-buffers, null pointers, local sizes) last set on that kernel object before the enqueue, however arguments are changed afterwards and whichever other kernel objects exist. Enqueueing a kernel with an argument never set, or setting one with a wrong index or size, fails without changing any argument.",
 ["histories","inputs"],"for every interleaving of clSetKernelArg, kernel creation, enqueue and flush over several kernel objects",
 "Tests set each argument once, right before the only enqueue.",
 [R,K,AQ,WG],[("capture","Kernel copy in clEnqueueNDRangeKernel"),("validation","clSetKernelArg, Kernel::allArgumentsSet")],
 [("Kernel::m_values","argument values")],"values the kernel writes to its output buffer")
p("M01","Buffer transfers move exactly the requested bytes",
 "Reads, writes, copies, fills and their rectangular forms change exactly the destination bytes that offsets, origins, region and pitches select, with exactly the selected source bytes, and leave every other byte of every buffer and of host memory unchanged. A transfer whose range does not lie wholly inside its buffer, or a copy whose ranges overlap, is rejected with the documented error and moves nothing.",
 ["inputs","histories"],"for every sequence of transfers with any offsets, sizes, origins, regions and pitches over buffers and sub-buffers, with or without host pointers",
 "Tests use whole-buffer linear reads and writes; no test does a rectangular transfer, a fill, or a sub-buffer transfer.",
 [Q,M,R],[("transfer execution","Queue::executeCopyBufferRect and siblings"),("bounds checks","clEnqueue*Buffer*"),("storage","Memory::load/store/copy")],
 [("buffer contents","bytes of each buffer")],"contents of all buffers and of the host memory after every step")
p("M02","Sub-buffers, mapped pointers and kernels see the same bytes",
 "A sub-buffer is exactly the selected range of its parent, a mapped pointer is exactly the selected range of its object, and what the host, a kernel or a transfer writes through any of these views is read through all the others. A sub-buffer or mapping outside its parent is rejected, a buffer created from host data starts with that data, and buffers that are alive at the same time never share bytes.",
 ["histories","inputs"],"for every history of buffer, sub-buffer and map creation, release and reuse of the freed space, with accesses through every view",
 "Only one test maps a buffer; sub-buffers and address reuse are not tested.",
 [R,M,Q],[("address layout and reuse","Memory::allocateBuffer, deallocateBuffer, createHostBuffer"),("views","clCreateSubBuffer, Memory::mapBuffer, Memory::getPointer")],
 [("m_memory","live buffers"),("m_freeBuffers","slots to reuse")],"bytes seen through each view")
p("M03","Image transfers move exactly the requested pixels",
 "Reading, writing, copying, filling or mapping a region of an image of any type touches exactly the pixels that origin and region select, with the documented pitches, whatever the pixel format, and leaves every other pixel unchanged. A map or fill region outside the image is rejected with an error and has no effect.",
 ["inputs","histories"],"for every image type, size, pixel size, origin, region and host pitch",
 "One application test uses one 2D image and whole-image transfers.",
 [R,Q],[("image geometry","clEnqueueReadImage, clEnqueueWriteImage, clEnqueueCopyImage*, clEnqueueFillImage, clEnqueueMapImage"),("fill","Queue::executeFillImage")],
 [("image contents","pixels of each image")],"contents of all images after every step")
p("M04","Kernels read and write images as the sampler and format define",
 "read_image and write_image in a kernel access exactly the pixel that coordinates, sampler addressing mode, normalisation and filter select, and convert channels as the pixel format defines; image size and format queries return the image's own values. Coordinates outside the image give the border colour or the addressed edge, wrapped or mirrored pixel, never other memory.",
 ["inputs","configurations"],"for every image type, format, sampler and coordinate, in range and out of range",
 "Tests use one image kernel with one sampler.",
 [WB,CO],[("coordinate addressing","WorkItemBuiltins read_image / getAdjustedCoordinate helpers"),("channel conversion","readSignedColor, readUnsignedColor, readNormalizedColor, write_image")],
 [("image contents","pixels of each image")],"values returned by read_image and pixels after write_image")
p("A01","A rejected API call reports one error and changes nothing",
 "Every API call that returns an error (or NULL with an error code) leaves all objects, queues, reference counts, kernel arguments and memory as they were, returns the documented error code, and invokes the context's error callback with that error; an accepted call never invokes it.",
 ["inputs","histories"],"for every invalid argument combination of the documented calls, at every point of a history",
 "Tests only make valid calls.",
 [R],[("argument checks","ReturnErrorInfo / SetErrorInfo uses"),("notification","notifyAPIError")],
 [("objects","all objects of a context")],"return codes, context callback and state queries before and after")
p("P01","Program build status decides what can be done with a program",
 "A program offers kernels, with exactly the names, argument counts and attributes of its source, if and only if its most recent build or link succeeded; a failed build leaves a log and no kernels, rebuilding replaces the previous result, and compile plus link, or reloading the binary of a built program, gives kernels that behave like the directly built program's. Build options such as macro definitions affect exactly the build they are given to.",
 ["histories"],"for every history of builds, compiles, links, binary reloads, kernel creations and releases, with valid and invalid sources and options",
 "One test builds one program; rebuild, failure, link and binary histories are not tested.",
 [PR,R,K],[("build","Program::build"),("link and binaries","Program::createFromPrograms, createFromBitcode, getBinary"),("kernel creation","clCreateKernel, clCreateKernelsInProgram")],
 [("m_buildStatus","result of the last build")],"build info, kernel names, kernel results")
p("K01","Every work-item of an NDRange executes exactly once with correct IDs",
 "For any dimensions, global offset, global and local size (uniform or not) and any number of worker threads, a kernel executes each work-item of the NDRange exactly once, in exactly one work-group of the right size, and every work-item function returns the value the OpenCL specification gives for it. Kernel completion is reported only after all work-items have finished.",
 ["inputs","schedules","configurations"],"for every NDRange shape and offset, every thread count and every schedule of the worker threads",
 "Tests use a few one-dimensional shapes; coverage by threads is never checked for duplicates or omissions.",
 [KI,WG,WI,WB],[("group dispatch","KernelInvocation::run, runWorker"),("group geometry","KernelInvocation constructor, WorkGroup constructor"),("ID functions","WorkItemBuiltins get_* functions")],
 [("nextGroupIndex","shared group counter"),("m_currentWorkGroup","group a worker runs")],"per work-item records written by the kernel and plugin notifications")
p("K02","Barriers hold back every work-item of the group, or divergence is reported",
 "No work-item continues past a barrier before every work-item of its work-group has reached that same barrier, and everything written before the barrier is seen after it by the whole group. If the work-items of a group do not all reach the same barrier, a divergence error is reported for that group, and execution of the kernel always ends; if they do, none is reported.",
 ["programs","schedules"],"for every assignment of barrier sequences, loops and exits to work-items, every group shape and thread count",
 "Two tests show two fixed divergent kernels.",
 [WG,KI,WB],[("barrier arrival and release","WorkGroup::notifyBarrier, clearBarrier"),("work-item scheduling","KernelInvocation::runWorker, WorkGroup::getNextWorkItem")],
 [("m_barrier","barrier in progress"),("m_running","work-items not at the barrier")],"order of barrier crossings, values read after barriers, divergence messages")
p("K03","Asynchronous group copies complete before the wait that names them returns",
 "async_work_group_copy and its strided form copy exactly the selected elements once per call by the group, the destination holds them when wait_group_events on that event (or an event chained to it) returns, and other memory is untouched. If work-items of a group do not all make the same copy or wait calls with the same arguments, or the kernel ends with a copy never waited for, or a wait names an unknown event, this is reported, and otherwise nothing is.",
 ["programs","inputs"],"for every sequence of copies, strides, chained events and waits, uniform or divergent over the group",
 "A dozen fixed kernels exist; combinations of chaining, strides and partial waits are unsampled.",
 [WG,WB],[("registration and matching","WorkGroup::async_copy"),("completion","WorkGroup::clearBarrier, notifyFinished"),("wait","WorkItemBuiltins wait_group_events")],
 [("m_asyncCopies","copies registered by the group"),("m_pendingEvents","events not yet waited for")],"destination contents and diagnostics")
p("K04","Atomic operations are indivisible and return the value they replaced",
 "Concurrent atomic operations on one location by any work-items of any groups, on any number of worker threads, behave as if executed one at a time: each returns the value it replaced and the final value results from all of them. Each operation (add, sub, xchg, inc, dec, cmpxchg, min, max, and, or, xor; signed, unsigned, 32 and 64 bit; local and global) computes the specified function.",
 ["schedules","inputs"],"for every interleaving of atomic operations by all work-items, for any thread count and any operand",
 "Tests run a few increments, whose sums hide lost return values and most interleavings.",
 [M,WB],[("indivisibility","Memory::atomic, atomicMutex"),("builtins","WorkItemBuiltins atomic_*")],
 [("memory cell","value under atomic update")],"values returned and final values")
p("K05","Local and private memory belong to one group or one work-item",
 "Each work-group has its own instance of every local variable and local argument and each work-item its own private variables, at every call depth; no work-group or work-item ever observes a value another one stored in them. Distinct local variables and arguments never overlap, are at least as large as declared, and a kernel's reported local memory size is the sum of its own.",
 ["programs","schedules"],"for every set of local variables and arguments, group count, group order and thread count",
 "Tests use one or two local arrays; isolation between groups is not observed.",
 [WG,WI,K,M],[("local allocation","WorkGroup constructor"),("private stack","WorkItem::alloca / ret"),("local size","Kernel::getLocalMemorySize, Kernel constructor")],
 [("m_localMemory","group's local memory"),("m_privateMemory","work-item's private memory")],"values read back by kernels, clGetKernelWorkGroupInfo")
p("K06","Kernel code computes what OpenCL C defines",
 "Every integer, pointer, vector, control-flow and function-call construct of a kernel yields the value OpenCL C defines for it, independent of how the code is spread over loops, functions, private, local, constant or global memory. The result does not depend on the optimisation level of the build.",
 ["programs","inputs"],"for every well-defined kernel built from integer arithmetic, comparisons, conversions, arrays, structs, vectors, branches, loops, switches and calls",
 "Tests contain a few dozen fixed kernels.",
 [WI,CO,PR],[("instruction execution","WorkItem::execute and the instruction handlers"),("operands","WorkItem::getOperand, getConstantData")],
 [("m_instResults","SSA values"),("m_callStack","calls in progress")],"values stored by the kernel")
p("B01","Integer, relational and vector built-ins return the specified value",
 "Every integer built-in (abs, abs_diff, add_sat, sub_sat, hadd, rhadd, mul_hi, mad_hi, mad_sat, mad24, mul24, clz, popcount, rotate, min, max, clamp, upsample), relational built-in, select, bitselect, shuffle, shuffle2, vload/vstore and saturating or wrapping integer conversion returns, for every argument and for every integer type and vector width, the value the OpenCL specification gives.",
 ["inputs"],"for every operand value of every integer type and vector width",
 "One regression test covers one overflow of rhadd; boundary values of the other functions and types are untested.",
 [WB],[("built-in implementations","WorkItemBuiltins")],None,"values stored by the kernel")
p("D01","Every access outside a live allocation is reported and contained",
 "Every load, store, atomic, or group copy by a kernel that touches any byte outside a live allocation of its address space (including null pointers, freed buffers and one past the end) is reported as an invalid access of the right kind, size and address space, and changes no memory; every access wholly inside is performed and never reported. Constant indices outside a statically sized array are reported too.",
 ["inputs","programs"],"for every address, size, address space and access kind, for every set of allocations",
 "A handful of tests overrun one buffer by one element.",
 [M,"src/plugins/MemCheck.cpp"],[("bounds","Memory::isAddressValid"),("reports","MemCheck::memoryLoad, memoryStore, memoryAtomic*"),("static arrays","MemCheck::checkArrayAccess")],
 [("m_memory","live allocations")],"diagnostics and contents of all buffers")
p("D02","Access permissions and host mappings are enforced by diagnostics",
 "A kernel access that writes a read-only buffer, reads a write-only buffer, touches a range the host has mapped for writing, or writes a range the host has mapped for reading is reported, for exactly the bytes mapped and exactly while they are mapped; every other in-bounds access is not reported.",
 ["histories","inputs"],"for every set of buffer flags, sub-buffers, overlapping maps and unmaps, and every accessed range",
 "Two tests access one buffer with the wrong flag; maps are never combined with kernel accesses.",
 ["src/plugins/MemCheck.cpp",Q,R],[("permissions","MemCheck::checkLoad, checkStore"),("map regions","MemCheck::memoryMap, memoryUnmap")],
 [("m_mapRegions","ranges mapped by the host")],"diagnostics")
p("D03","A data race is reported if and only if the accesses are unordered",
 "With race detection on, two accesses to the same byte by different work-items, at least one a write, not both atomic and not ordered by a barrier with the matching fence (within a group) or by the end of the kernel (between kernels), cause a race report, and a run without such a pair of accesses causes none. Writes of the same value by several work-items do not count unless uniform-write checking is on, and detection does not depend on the order in which work-items or groups happen to run.",
 ["programs","schedules","configurations"],"for every assignment of loads, stores, atomics and barriers to work-items, every group shape and NDRange offset",
 "A dozen fixed kernels; multi-dimensional groups, offsets, and most combinations of access kinds are untested.",
 ["src/plugins/RaceDetector.cpp",WG],[("access recording","RaceDetector::registerAccess, insert"),("intra-group comparison","RaceDetector::syncWorkItems"),("inter-group comparison","RaceDetector::workGroupComplete, kernelEnd")],
 [("access maps","accesses since the last synchronisation")],"race diagnostics")
p("D04","Uses of uninitialized values are reported and only those",
 "With uninitialized-value checking on, a value is treated as uninitialized exactly when it depends on memory never written (through copies, arithmetic, private, local or global memory, vectors, structs and calls), and using such a value as a branch condition, address or written-out result is reported; a program that uses only initialized values gets no report.",
 ["programs","inputs"],"for every flow of initialized and uninitialized values through memory, arithmetic, calls and buffers",
 "A few tests with fixed patterns; the many propagation rules are sampled once or not at all.",
 ["src/plugins/Uninitialized.cpp"],[("shadow propagation","Uninitialized::instructionExecuted"),("shadow memory","ShadowMemory"),("host writes","Uninitialized::hostMemoryStore")],
 [("shadow memory","which bits are uninitialized")],"diagnostics")
p("D05","Instruction counts equal the instructions executed",
 "With instruction counting on, the histogram printed for each kernel run contains, for every instruction class, exactly the number of instructions all its work-items executed, and for loads and stores exactly the number of bytes per address space, for any number of threads, and one kernel run never affects the counts of another.",
 ["programs","schedules"],"for every kernel, NDRange and thread count",
 "No existing test looks at instruction counts.",
 ["src/plugins/InstructionCounter.cpp"],[("per-thread counters","InstructionCounter::instructionExecuted"),("merge","InstructionCounter::workGroupComplete, kernelEnd")],
 [("m_instructionCounts","totals of the kernel run")],"printed histogram")
p("D06","The interactive debugger stops where asked and never changes results",
 "In the interactive debugger, step stops at the next source line of the current work-item, next does so without entering calls, a breakpoint stops each time its line is reached, delete and continue work as documented, and printed variables and memory show the current values of the selected work-item. Debugging never changes what the kernel computes.",
 ["histories","programs"],"for every sequence of debugger commands on any kernel and work-item",
 "Two tests print one variable each.",
 ["src/plugins/InteractiveDebugger.cpp"],[("stop decision","InteractiveDebugger::instructionExecuted, shouldShowPrompt"),("commands","InteractiveDebugger::next, step, brk, workitem, print, mem")],
 [("m_breakpoints","lines to stop at")],"debugger output and kernel results")
p("D07","Diagnostics are delivered completely up to the configured limit",
 "Every diagnostic raised during a run is printed exactly once and intact, to the configured log, until the configured maximum number of errors has been printed; then exactly one notice follows and later errors are suppressed, for any number of threads and kernels.",
 ["configurations","schedules"],"for every limit, number of errors, log destination and thread count",
 "Tests stay below the limit and compare only whole outputs.",
 ["src/plugins/Logger.cpp",CX],[("limit","Logger::log"),("message building","Context::Message")],
 [("m_numErrors","errors printed so far")],"log output")
p("T01","Checking tools, thread count and quick mode do not change kernel results",
 "For a race-free kernel, buffer contents, printf output and event results are identical with any set of checking plugins enabled, any number of worker threads, and any build optimisation option; quick mode executes exactly the first and last work-group.",
 ["configurations","schedules"],"for every race-free program and NDRange, over every combination of plugins and thread counts",
 "Tests run each program in one configuration.",
 [KI,CX,"src/core/Plugin.cpp"],[("plugin notification","Context::notify*"),("worker count","KernelInvocation constructor")],None,"buffer contents under each configuration")
p("F01","printf output is complete, in order per work-item and correctly formatted",
 "Every printf a work-item executes appears exactly once with every conversion formatted as OpenCL C defines (flags, width, precision, length and vector modifiers, %%, strings and characters), in program order for each work-item.",
 ["inputs","programs"],"for every format string and argument list and every number of work-items",
 "One test prints a few values.",
 [WB],[("formatting","WorkItemBuiltins printf_builtin")],None,"standard output")
p("S01","The standalone kernel runner reports the buffers the kernel produced",
 "For every valid simulation file, oclgrind-kernel runs the named kernel once over the given NDRange with exactly the described arguments and prints, for each argument marked for dumping, the values the kernel left in it in the declared type; malformed files are rejected with an error and a nonzero exit.",
 ["inputs"],"for every simulation file: argument kinds, types, sizes, ranges, fills, dumps and NDRanges",
 "The existing tests use simulation files but only compare fixed outputs.",
 ["src/kernel/Simulation.cpp","src/kernel/oclgrind-kernel.cpp"],[("parser","Simulation::load, parseArgument"),("dump","Simulation::dumpArgument")],None,"standard output and exit status")
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n); assert len(x["title"])<=80,(x["id"],len(x["title"]))
