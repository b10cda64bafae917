#!/usr/bin/env python3
"""E01: see echecks.e01."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e01
main(e01, 'E01')
