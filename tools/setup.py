#!/usr/bin/env python3
"""setup_cmd: nothing persists between checks, so this only verifies that the tools exist."""
import os, sys
for p in ("/opt/venv/bin/python", "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(p):
        sys.exit("missing " + p)
print("ok")
