"""Nothing to build: confirm that the interpreter and the code under test can be used."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: F401,E402
import colosseum  # noqa: E402

print("colosseum from", colosseum.__file__, "python", sys.version.split()[0])
