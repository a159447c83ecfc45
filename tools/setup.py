"""setup: verifies that the tools the checks need are present (the checks build everything themselves)"""
import shutil
import sys
missing = [t for t in ("g++", "gfortran", "python3-vt", "valgrind") if not shutil.which(t)]
try:
    import mpmath, numpy  # noqa: F401,E401
except ImportError as e:
    missing.append(str(e))
if missing:
    sys.exit("missing: " + ", ".join(missing))
print("ok")
