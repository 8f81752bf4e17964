#!/usr/bin/env python3
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
threading.stack_size(512 * 1024 * 1024)
rc = []


def go():
    import traceback
    try:
        import check
        rc.append(check.main())
    except BaseException:
        traceback.print_exc()
        rc.append(3)


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0] if rc else 3)
