#!/usr/bin/env python3
"""Builds the shared parts once; every check also builds what it needs itself."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
common.rtdeps("asan"); common.vgen_bin(); common.cli_bin(); common.rtdeps("none"); common.bdrv_bin()
print("ok")
