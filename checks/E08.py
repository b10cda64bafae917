#!/usr/bin/env python3
"""E08: see echecks.e08."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e08
main(e08, 'E08')
