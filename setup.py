#!/usr/bin/env python3
"""Builds the IR reader and the IR of /repo's current sources (both cached under build/)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import ir
print(ir.irdump_binary())
print(ir.fm_library())
ir.load()
print('IR of', ir.REPO, 'ready:', ir.key())
