#!/usr/bin/env python3
"""E06: see echecks.e06."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e06
main(e06, 'E06')
