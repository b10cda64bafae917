#!/usr/bin/env python3
"""L01: see lchecks.l01."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from lchecks import l01
main(l01, 'L01')
