#!/usr/bin/env python3
"""F08: see fchecks.f08."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from fchecks import f08
main(f08, 'F08')
