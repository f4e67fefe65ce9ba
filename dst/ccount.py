"""Counts the work C code does (see ccount.c); built when it is needed."""

import ctypes
import os
import shutil
import subprocess
import sysconfig
import tempfile

LIB = None


def install():
    """Best effort: without a compiler only instructions are counted."""
    global LIB
    here = os.path.dirname(os.path.abspath(__file__))
    d = tempfile.mkdtemp(prefix="dst-cc-")
    try:
        so = os.path.join(d, "ccount.so")
        r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-I", sysconfig.get_paths()["include"],
                            "-o", so, os.path.join(here, "ccount.c")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode:
            return False
        lib = ctypes.PyDLL(so)
        lib.ccount_bytes.restype = lib.ccount_cmps.restype = ctypes.c_ulonglong
        lib.ccount_install()
        LIB = lib
        return True
    except OSError:
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def now():
    """(bytes allocated, comparisons made) since the start."""
    return (LIB.ccount_bytes(), LIB.ccount_cmps()) if LIB else (0, 0)
