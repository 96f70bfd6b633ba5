"""Setup: there is nothing to build; checks that the analyser loads and parses /repo."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.loader import Package   # noqa: E402

p = Package()
print("parsed %d modules, %d functions" % (len(p.modules), sum(1 for _ in p.functions())))
assert len(p.modules) >= 7
