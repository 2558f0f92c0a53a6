import os
import sys
import traceback

from mc.engine import main

sys.setrecursionlimit(5000)
try:
    rc = main(sys.argv[1:])
except BaseException:  # noqa: BLE001
    traceback.print_exc()
    rc = 1
sys.stdout.flush()
os._exit(rc)
