#!/usr/bin/env python3
"""setup_cmd: builds the monitors (reference CPU, trace checker) from the committed sources."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
vlib.build_em86(force=True)
print("monitors built in", vlib.BUILD)
