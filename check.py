"""check.py ID [quick|thorough]: decide one property. Exit 0: held on everything explored; 1: VIOLATION."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402
if __name__ == '__main__':
    core.reexec()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(core.main(sys.argv[1], 'thorough' if tier == 'thorough' else 'quick'))
