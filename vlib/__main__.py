import sys
from vlib.core import main

if __name__ == "__main__":
    sys.exit(main())
