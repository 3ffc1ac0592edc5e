#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs.  This only fails early when a tool is missing."""
import shutil, subprocess, sys
for t in ("java", "javac", "bash"):
    if not shutil.which(t):
        sys.exit("missing " + t)
sys.exit(subprocess.run(["bash", "-c", ". /opt/vp/env.sh && go version"]).returncode)
