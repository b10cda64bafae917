#!/usr/bin/env python3
"""N01: see nchecks.n01."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from nchecks import n01
main(n01, 'N01')
