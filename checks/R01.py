#!/usr/bin/env python3
"""R01: see tchecks.r01."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from tchecks import r01
main(r01, 'R01')
