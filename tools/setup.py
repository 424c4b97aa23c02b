#!/usr/bin/env python3
"""Builds the engine and every configuration of the analysed crates (each check does so too when needed)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build
build.build_engine()
for c in build.CONFIGS:
    build.build_deps(c)
    build.scan(c)
