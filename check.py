"""check.py <property id> [--replay FILE]: decide one property."""
import os
import sys
import tempfile

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    from sim.runner import main
    sys.exit(main(sys.argv[1:]))
