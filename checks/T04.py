#!/usr/bin/env python3
"""T04: see tchecks.t04."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from tchecks import t04
main(t04, 'T04')
