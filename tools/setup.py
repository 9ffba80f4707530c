#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles /repo's current sources. This only verifies the tools are there."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "gcc") if not shutil.which(t)]
sys.exit("missing tools: %s" % missing if missing else 0)
