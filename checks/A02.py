#!/usr/bin/env python3
"""A02: see gchecks.a02."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from gchecks import a02
main(a02, 'A02')
