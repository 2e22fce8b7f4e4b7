"""replay.py FILE: run again the case a violation was reported for."""
import json
import os
import subprocess
import sys

bad = json.load(open(sys.argv[1]))
here = os.path.dirname(os.path.abspath(__file__))
sys.exit(subprocess.call([
    sys.executable, os.path.join(here, "check.py"), bad["property"],
    "--tier", bad["tier"], "--seed", str(bad["seed"]), "--case", str(bad["case"]),
]))
