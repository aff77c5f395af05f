#!/usr/bin/env python3
"""Nothing to build ahead of time (every check builds what it needs from /repo's tree): verifies that the tools are there."""
import shutil, subprocess, sys, os
ok = all(shutil.which(x) for x in ("g++", "java", "python3")) and os.path.exists("/opt/veriftools/tla/tla2tools.jar")
print("tools present" if ok else "tools missing")
sys.exit(0 if ok else 1)
