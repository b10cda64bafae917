#!/usr/bin/env python3
"""P01: see pchecks.p01."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from pchecks import p01
main(p01, 'P01')
