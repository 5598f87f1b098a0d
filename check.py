#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property statically on /repo's current tree."""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from psv.ctx import main
if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def run():
        try:
            rc.append(main(sys.argv))
        except SystemExit as e:
            print(e, file=sys.stderr)
    t = threading.Thread(target=run)
    t.start(); t.join()
    sys.exit(rc[0] if rc else 2)
