#!/usr/bin/env python3
"""E03: see echecks.e03."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e03
main(e03, 'E03')
