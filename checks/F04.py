#!/usr/bin/env python3
"""F04: see fchecks.f04."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from fchecks import f04
main(f04, 'F04')
