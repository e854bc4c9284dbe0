import importlib
import pathlib
import sys

here = pathlib.Path(__file__).resolve().parent
sys.path[0:1] = ["/repo", str(here)]
module = importlib.import_module("checks." + sys.argv[1].lower())
from mon import core
sys.exit(core.main(module, sys.argv[2:]))
