#!/usr/bin/env python3
"""L03: see lchecks.l03."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from lchecks import l03
main(l03, 'L03')
