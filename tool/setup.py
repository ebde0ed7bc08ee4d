"""offline readiness check: the interpreters and solvers the checks need are present"""
import subprocess, sys
for c in (["/opt/pypyvenv/bin/python", "-c", "import nmigen"], [sys.executable, "-c", "import z3, cvc5"], ["cvc5", "--version"],
          ["cbmc", "--version"]):
    p = subprocess.run(c, stdout=subprocess.DEVNULL)
    print(" ".join(c), "->", p.returncode)
    if p.returncode:
        sys.exit(1)
