"""Run something in a fresh forked process and get its result back, with a time limit."""
import os, pickle, select, signal, time, traceback


def forked(fn, *a, timeout=240.):
    """("ok", value) | ("exc", text) | ("died", status) | ("hung", None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                v = ("ok", fn(*a))
            except BaseException as e:
                v = ("exc", repr(e)[:300] + "\n" + traceback.format_exc()[-1500:])
            b = pickle.dumps(v)
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf, end = [], time.time() + timeout
    hung = False
    while True:
        if not select.select([r], [], [], max(0, end - time.time()))[0]:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if hung:
        return "hung", None
    try:
        return pickle.loads(b"".join(buf))
    except Exception:
        return "died", st
