#!/usr/bin/env python3
"""E12: see echecks.e12."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e12
main(e12, 'E12')
