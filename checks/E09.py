#!/usr/bin/env python3
"""E09: see echecks.e09."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e09
main(e09, 'E09')
