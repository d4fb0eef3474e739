#!/usr/bin/env python3
# nothing is kept between runs: every check builds what it needs. This only verifies that the tools are there.
import shutil, sys
missing = [t for t in ("g++", "ninja", "ar", "python3") if not shutil.which(t)]
print("missing: " + " ".join(missing) if missing else "ready"); sys.exit(bool(missing))
