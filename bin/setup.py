#!/usr/bin/env python3
"""Prepares the framework: checks the tools, compiles the library once per flavor in use."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vfbuild
from props import PROPS

b = vfbuild.Builder()
jobs = sorted({(s, r["flavor"]) for p in PROPS.values() for r in p["runs"] for s in b.lib_sources()})
import concurrent.futures
with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
    list(ex.map(lambda j: b.compile(j[0], j[1], True), jobs))
print("setup: %d library objects" % len(jobs))
