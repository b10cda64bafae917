#!/usr/bin/env python3
"""E10: see echecks.e10."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e10
main(e10, 'E10')
