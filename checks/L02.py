#!/usr/bin/env python3
"""L02: see lchecks.l02."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from lchecks import l02
main(l02, 'L02')
