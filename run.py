"""Usage: python3 run.py <property id> [quick|thorough]"""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def go():
    global rc
    from vsa.check import main
    rc = main(sys.argv)


rc = 2
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
sys.exit(rc)
