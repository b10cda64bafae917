#!/usr/bin/env python3
"""F06: see fchecks.f06."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from fchecks import f06
main(f06, 'F06')
