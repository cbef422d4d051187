"""Setup: the framework needs no build of its own; confirms the tool chain works offline."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
d = build.scratch()
try:
    print("built", os.path.basename(build.shared(d)))
finally:
    shutil.rmtree(d, ignore_errors=True)
