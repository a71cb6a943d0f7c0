"""setup_cmd: checks that the tools the checks rely on are present"""
import shutil, os, sys, subprocess
need = ["kissat", "yosys", "cbmc", "goto-cc", "clang", "gcc"]
miss = [t for t in need if not shutil.which(t)]
if not os.path.exists("/opt/pypyvenv/bin/python"):
    miss.append("pypyvenv")
for d in ("out", "evidence"):
    os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d), exist_ok=True)
print("missing: %s" % miss if miss else "all tools present")
sys.exit(1 if miss else 0)
