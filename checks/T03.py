#!/usr/bin/env python3
"""T03: see tchecks.t03."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from tchecks import t03
main(t03, 'T03')
