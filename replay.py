#!/usr/bin/env python3
"""replay.py FILE: rebuild the simulator from /repo's working tree and replay FILE. Exit 1 if the violation is reproduced."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build as builder  # noqa: E402
import plan  # noqa: E402

prop = open(sys.argv[1]).readline().split()[1]
sys.exit(subprocess.run([builder.build(plan.PLAN[prop]["target"]), "replay", "--file", sys.argv[1]]).returncode)
