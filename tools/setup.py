#!/usr/bin/env python3
"""Builds the harness once; every check rebuilds it from /repo anyway."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
vlib.build()
