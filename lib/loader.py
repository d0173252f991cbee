"""Loads the executor library and runs one script, or several at the same time (argv: lib script out [script out …])."""
import ctypes
import os
import resource
import sys

resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
lib = ctypes.CDLL(sys.argv[1], mode=ctypes.RTLD_GLOBAL)
if len(sys.argv) > 4:
    rc = lib.vexec_tasks(os.fsencode("\n".join(sys.argv[2::2])), os.fsencode("\n".join(sys.argv[3::2])))
else:
    rc = lib.vexec_main(os.fsencode(sys.argv[2]), os.fsencode(sys.argv[3]))
os._exit(rc)
