#!/usr/bin/env python3
"""setup_cmd: builds the harness and the Java overrides from the committed files."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf  # noqa: E402

vf.java_classes()
for variant, programs in vf.PROGRAMS.items():
    vf.build(variant, programs)
print("ready")
