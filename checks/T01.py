#!/usr/bin/env python3
"""T01: see tchecks.t01."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from tchecks import t01
main(t01, 'T01')
