import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path[:] = [p for p in sys.path if not p.endswith("/symx")]
# z3 lives in the tooling venv; appended last so the repository's own numpy wins
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symx.run import main  # noqa: E402
main()
