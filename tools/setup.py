#!/usr/bin/env python3
"""setup_cmd: verifies that the tools the checks need are present (the checks build everything else themselves)."""
import shutil, sys
missing = [t for t in ("gcc", "clang", "ar", "apr-1-config") if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "ok")
sys.exit(1 if missing else 0)
