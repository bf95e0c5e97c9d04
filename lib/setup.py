#!/usr/bin/env python3
"""setup_cmd: warms the build cache of the driver (with and without the race detector); the checks build it themselves."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
ctx = vf.Ctx("setup", "quick", 1)
ctx.driver()
ctx.driver(race=True)
print("ok")
