#!/usr/bin/env python3-vt
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":     # the same order of everything on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "vc"), os.path.dirname(os.path.abspath(__file__))]
import driver
if __name__ == "__main__":
    rc = driver.main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
