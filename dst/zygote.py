"""A warmed-up process from which every run is forked.

Usage: python -m dst.zygote SRC PROP          (requests on stdin, results on stdout)

Requests are fixed-size so that the parent's own memory traffic is periodic and
every child starts from the same heap; children write their result themselves.
"""

import gc
import json
import os
import random
import signal
import sys

REQ = 256


def main():
    src, prop = sys.argv[1], sys.argv[2]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from dst import engine
    if prop == "P12":
        from dst import ccount
        ccount.install()
    engine.install_loader(src)
    from dst import gen, lexicon, model, world, ops, run  # noqa
    lexicon.load(src)
    if prop in run.NEED_LLVM:
        import numpy  # noqa
        import llvmlite.binding  # noqa
    if prop in run.NEED_SYMPY:
        import sympy  # noqa
        ops.sy_unsupported()
    world.lib()
    run.warm()
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("DST_DEBUG"):
        os.dup2(devnull, 2)
    gc.collect()
    gc.set_threshold(0)  # never by itself, yet not disabled: that is the library's to leave alone
    gc.freeze()
    while True:
        req = os.read(0, REQ)
        if len(req) < REQ:
            break
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(run.WALL)
                run.child(req)
            except BaseException:
                import traceback
                run.emit({"status": "harness", "msg": traceback.format_exc()})
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st:
            os.write(1, b'{"status":"died","signal":%d,"code":%d}\n' % (st & 127, st >> 8))


main()
