#!/usr/bin/env python3
"""setup_cmd: nothing has to be built; checks that the tools the engine uses are present."""
import shutil, sys, ctypes, ctypes.util, os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"engine"))
sys.dont_write_bytecode=True
bad=[t for t in("clang++","opt-18","g++") if not shutil.which(t)]
import llvmc, absint, compare, driver
if bad: print("missing tools:",bad); sys.exit(1)
print("ok")
