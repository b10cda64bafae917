#!/usr/bin/env python3
"""S02: see schecks.s02."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from schecks import s02
main(s02, 'S02')
