#!/usr/bin/env python3
"""setup_cmd: verifies that the tools every check needs are there.  Nothing is kept: each check builds for itself."""
import shutil, sys
missing = [t for t in ("x86_64-w64-mingw32-g++-posix", "x86_64-w64-mingw32-gcc-posix", "x86_64-w64-mingw32-ar", "ninja", "wine", "wineboot") if not shutil.which(t)]
print("missing: " + " ".join(missing) if missing else "ok")
sys.exit(1 if missing else 0)
