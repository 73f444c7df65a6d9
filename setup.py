#!/usr/bin/env python3
"""Builds everything the checks need (they rebuild what changed by themselves)."""
import glob, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "lib"))
import build, vp
vp.java_classes()
build.build(["visqol"] + sorted(os.path.splitext(os.path.basename(d))[0] for d in glob.glob(os.path.join(H, "driver/*.cc"))))
