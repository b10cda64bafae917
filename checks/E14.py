#!/usr/bin/env python3
"""E14: see echecks.e14."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e14
main(e14, 'E14')
