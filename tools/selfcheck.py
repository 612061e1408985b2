"""setup_cmd: nothing to build; fails early if a needed tool is missing."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
import contracts
from engine import explore, runner, concrete
print("z3", z3.get_version_string(), "-", len(contracts.load_all()), "contracts")
