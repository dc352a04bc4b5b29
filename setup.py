#!/usr/bin/env python3
"""Nothing to install: verifies that the tools the checks need are present."""
import shutil, sys, os
missing = [t for t in ("gcc", "java", "python3") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    missing.append("tla2tools.jar")
if missing:
    sys.exit("missing: %s" % missing)
print("ok")
