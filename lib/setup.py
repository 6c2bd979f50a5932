"""Nothing is downloaded or installed: make the build folders and check that the tools are there."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replay"): os.makedirs(os.path.join(V, d), exist_ok=True)
missing = [t for t in ("verus", "cargo") if not shutil.which(t)]
if missing: print("missing tools:", missing); sys.exit(1)
print("ready")
