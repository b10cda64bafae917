#!/usr/bin/env python3
"""F02: see fchecks.f02."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from fchecks import f02
main(f02, 'F02')
