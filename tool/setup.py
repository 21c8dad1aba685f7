"""Build the extractor and the harness, so that the checks start warm."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import asm, check
asm.build_vx()
check.build_harness()
fns, statics, specs = asm.load_contracts()
asm.extract(fns, statics)
print("ready")
