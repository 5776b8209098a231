import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
import importlib
if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
pid = sys.argv[1]
import tempfile, atexit, shutil
_pc = tempfile.mkdtemp(prefix="vpyc-")   # never trust bytecode left in the tree
sys.pycache_prefix = _pc
atexit.register(shutil.rmtree, _pc, True)
from lib import env
from lib.check import Check
m = importlib.import_module("checks." + pid.lower())
ck = Check(pid)
m.check(ck)
sys.exit(ck.finish())
