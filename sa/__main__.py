import sys
from .core import main
if __name__ == "__main__":
    if sys.argv[1:2] == ["--setup"]:
        from .setup import setup
        sys.exit(setup())
    sys.exit(main(sys.argv[1:]))
