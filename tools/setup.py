#!/usr/bin/env python3
"""Checks that the tools the harnesses need are present. Each check builds what it runs."""
import shutil, sys
missing = [t for t in ("gcc", "ar", "addr2line") if not shutil.which(t)]
if missing:
    print("missing tools:", " ".join(missing))
    sys.exit(1)
print("ok")
