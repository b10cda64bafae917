#!/usr/bin/env python3
"""F07: see fchecks.f07."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from fchecks import f07
main(f07, 'F07')
