import sys

import engine

if __name__ == "__main__":
    code = engine.main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(code)
