import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyded import runner
if __name__ == '__main__':
    try: rc = runner.main(sys.argv[1:])
    finally: sys.stdout.flush()
    sys.exit(rc)
