#!/usr/bin/env python3
"""N02: see nchecks.n02."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from nchecks import n02
main(n02, 'N02')
