#!/usr/bin/env python3
"""E13: see echecks.e13."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e13
main(e13, 'E13')
