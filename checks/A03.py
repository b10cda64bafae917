#!/usr/bin/env python3
"""A03: see astep.a03."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from astep import a03
main(a03, 'A03')
