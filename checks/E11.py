#!/usr/bin/env python3
"""E11: see echecks.e11."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e11
main(e11, 'E11')
