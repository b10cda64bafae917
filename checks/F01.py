#!/usr/bin/env python3
"""F01: see fchecks.f01."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from fchecks import f01
main(f01, 'F01')
