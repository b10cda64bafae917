#!/usr/bin/env python3
"""X01: see xchecks.x01."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from xchecks import x01
main(x01, 'X01')
