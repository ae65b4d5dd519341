"""Calls into the natively compiled harness, each batch in a forked child, so a
panic (which aborts across extern "C") is observed instead of fatal."""
import ctypes, io, os, pickle, struct, sys, time, select, signal

_libs = {}


def lib(path):
    if path not in _libs:
        _libs[path] = ctypes.CDLL(path)
    return _libs[path]


def In(b):
    return ('in', bytes(b))


def Out(n):
    return ('out', n)


def Int(v, bits=64):
    return ('int', v, bits)


def call1(L, name, args, restype):
    """args: list of In/Out/Int; returns (ret, [out bytes...])"""
    f = getattr(L, name)
    f.restype = {'u8': ctypes.c_uint8, 'i64': ctypes.c_int64, 'u64': ctypes.c_uint64, None: None}[restype]
    ca = []
    outs = []
    for a in args:
        if a[0] == 'in':
            # 16-byte aligned copy
            raw = (ctypes.c_uint64 * (2 * ((len(a[1]) + 15) // 16) + 4))()
            base = ctypes.addressof(raw)
            al = (base + 15) & ~15
            ctypes.memmove(al, a[1], len(a[1]))
            ca.append(ctypes.c_void_p(al))
            outs.append((None, raw))
        elif a[0] == 'out':
            raw = (ctypes.c_uint64 * (2 * ((a[1] + 15) // 16) + 4))()
            base = ctypes.addressof(raw)
            al = (base + 15) & ~15
            ctypes.memset(base, 0, ctypes.sizeof(raw))
            ca.append(ctypes.c_void_p(al))
            outs.append(((al, a[1]), raw))
        else:
            ca.append({8: ctypes.c_uint8, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[a[2]](a[1]))
    r = f(*ca)
    return r, [ctypes.string_at(x[0], x[1]) for x, _ in outs if x]


def batch(path, calls, timeout=120):
    """calls: list of (name,args,restype). Returns list of ('ok',ret,outs) or ('panic',).
    On a crash the remaining calls are run in a new child."""
    res = []
    end = time.time() + timeout
    while len(res) < len(calls):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 2)
                os.dup2(dn, 1)
                L = lib(path)
                with os.fdopen(w, 'wb') as f:
                    for c in calls[len(res):]:
                        x = call1(L, *c)
                        pickle.dump(x, f)
                        f.flush()
            finally:
                os._exit(0)
        os.close(w)
        buf = b''
        to = False
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                to = True
                os.kill(pid, signal.SIGKILL)
                break
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
        os.close(r)
        os.waitpid(pid, 0)
        bio = io.BytesIO(buf)
        while True:
            try:
                res.append(('ok',) + pickle.load(bio))
            except (EOFError, pickle.UnpicklingError):
                break
        if len(res) < len(calls):
            if to:
                res += [('timeout',)]
                res += [('skipped',)] * (len(calls) - len(res))
                break
            res.append(('panic',))
    return res
