#!/usr/bin/env python3
"""E04: see echecks.e04."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e04
main(e04, 'E04')
