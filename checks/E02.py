#!/usr/bin/env python3
"""E02: see echecks.e02."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e02
main(e02, 'E02')
