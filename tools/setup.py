#!/usr/bin/env python3
"""Builds the harness and parses the specifications."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ddv
print('harness built in %.0fs' % ddv.build())
