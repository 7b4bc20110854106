#!/usr/bin/env python3
"""setup_cmd: builds the harness and checks that the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
vt.build()
vt.build_models("rawnames")
pg = vt.Pg()
pg.stop()
print("ready")
