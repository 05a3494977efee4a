"""setup_cmd: warms up the build directory (the checks rebuild what they need themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
for d in ("build", "build/replay", "evidence"): os.makedirs(os.path.join(driver.VERIF, d), exist_ok=True)
import z3
print("z3", z3.get_version_string(), "ready")
