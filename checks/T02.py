#!/usr/bin/env python3
"""T02: see tchecks.t02."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from tchecks import t02
main(t02, 'T02')
