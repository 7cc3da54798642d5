"""Checks that the tools the checks need are there and that every specification module parses."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
import lib
os.makedirs(lib.WORK, exist_ok=True); os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
bad = 0
for m in sorted(glob.glob(os.path.join(lib.SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", lib.JARS, "tla2sany.SANY", os.path.basename(m)], cwd=lib.SPEC, capture_output=True, text=True)
    if r.returncode or "rror" in r.stdout: print(m, r.stdout[-800:]); bad = 1
print("setup done"); sys.exit(bad)
