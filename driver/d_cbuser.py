"""A callback of one command completes the user event that a later command of the same queue waits for."""
import ctypes as C, os, signal, time
import ocl
from ocl import cl, vptr, i32
def run(s):
    pid = os.fork()
    if pid == 0:
        ocl.mode(0); e = i32()
        ctx = ocl.context(); q = ocl.queue(ctx); b = ocl.buffer(ctx, 1, 4); d = C.create_string_buffer(b"abcd", 4); ev = vptr(); ok = []
        u = cl.clCreateUserEvent(ctx, C.byref(e))
        cb = ocl.EVCB(lambda v, st, x: ok.append(cl.clSetUserEventStatus(u, 0)))
        ocl.ck(cl.clEnqueueWriteBuffer(q, b, 0, 0, 4, d, 0, None, C.byref(ev)))
        ocl.ck(cl.clSetEventCallback(ev, 0, cb, None))
        w = (vptr * 1)(u)
        ocl.ck(cl.clEnqueueMarkerWithWaitList(q, 1, w, None))
        r = cl.clFinish(q)
        os._exit(0 if r == 0 and ok == [0] else 1)
    t = time.time()
    while time.time() - t < 5:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: return {"rc": os.waitstatus_to_exitcode(st)}
        time.sleep(0.02)
    os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
    return {"rc": "hang"}
