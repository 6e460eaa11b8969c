"""checks that the tools the framework needs are there (nothing has to be built: every check builds from /repo itself)"""
import shutil, sys
import z3
for t in ("clang", "gcc", "z3-new", "cvc5"):
    print(t, shutil.which(t))
print("z3", z3.get_version_string())
sys.exit(0 if shutil.which("clang") and shutil.which("gcc") else 1)
