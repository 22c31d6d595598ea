"""What a call gives in a fresh process: run it in a fork of this one and hand back its (JSON) result."""
import os, json, sys, traceback
from . import core


def fresh(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = dict(ok=fn())
            except core.Violation as v:
                out = dict(cls=v.cls, msg=v.msg)
            except BaseException:
                out = dict(cls="fresh.exception", msg=traceback.format_exc()[-3000:])
            data = json.dumps(out, default=str).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    o = json.loads(buf.decode())
    if "ok" not in o:
        raise core.Violation(o["cls"], o["msg"])
    return o["ok"]
