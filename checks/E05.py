#!/usr/bin/env python3
"""E05: see echecks.e05."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from echecks import e05
main(e05, 'E05')
