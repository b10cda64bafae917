#!/usr/bin/env python3
"""S01: see schecks.s01."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from schecks import s01
main(s01, 'S01')
