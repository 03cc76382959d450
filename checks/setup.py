"""Builds the harnesses once (each check rebuilds what it needs anyway) and parses the specification."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
for t in vbuild.TARGETS:
    print(vbuild.build(t))
