#!/usr/bin/env python3
"""E15: see echecks.e15."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e15
main(e15, 'E15')
