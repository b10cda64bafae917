#!/usr/bin/env python3
"""E07: see echecks.e07."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e07
main(e07, 'E07')
