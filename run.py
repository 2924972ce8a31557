#!/usr/bin/env python3
"""python3 run.py <PROPERTY> [quick|thorough] - decide one property on /repo's current source."""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.report import main

rc = [2]


def go():
    rc[0] = main(sys.argv)


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
