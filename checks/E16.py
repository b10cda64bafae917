#!/usr/bin/env python3
"""E16: see echecks.e16."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e16
main(e16, 'E16')
