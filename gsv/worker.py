"""Process entry points (core itself must be imported under one name only)."""
import sys

from . import core

if __name__ == '__main__':
    if sys.argv[1] == 'worker':
        core.worker_main(sys.argv[2:])
    elif sys.argv[1] == 'replay':
        sys.exit(core.replay(sys.argv[2]))
