"""replay.py FILE: repeat a recorded violation."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402
if __name__ == '__main__':
    core.reexec()
    sys.exit(core.replay(sys.argv[1]))
