"""Entry point of every check: python -m rv.main CXX [--replay FILE]."""
import sys
from rv import core

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
