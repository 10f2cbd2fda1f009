#!/usr/bin/env python3
"""check.py <property-id>        run that property's check (VERIF_SEED, VERIF_TIER)
   check.py --setup             check that the tools are there
   check.py --replay <file>     re-run the case recorded in a replay file"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import runner

if len(sys.argv) == 3 and sys.argv[1] == "--replay":
    sys.exit(runner.replay(sys.argv[2]))
if sys.argv[1:] == ["--setup"]:
    import shutil
    from lib import specs
    missing = [t for t in ("g++", "valgrind") if not shutil.which(t)]
    missing += [] if os.path.exists(specs.PYTHON) else ["numpy python"]
    print("setup: %d checks, missing tools: %s" % (len(specs.PROPS), missing or "none"))
    sys.exit(1 if missing else 0)
if len(sys.argv) != 2:
    print(__doc__)
    sys.exit(2)
from lib import specs
if sys.argv[1] not in specs.PROPS:
    print("unknown property " + sys.argv[1])
    sys.exit(2)
sys.exit(runner.main(sys.argv[1], specs.PROPS[sys.argv[1]]))
