#!/usr/bin/env python3
"""setup_cmd: the checks need only java, TLC, g++ and python3; see that they are there."""
import os, shutil, sys
missing = [t for t in ("java", "g++", "cmake", "ninja") if not shutil.which(t)]
missing += [f for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar") if not os.path.exists(f)]
print("missing: " + ", ".join(missing) if missing else "tools present")
sys.exit(1 if missing else 0)
