#!/usr/bin/env python3
"""A01: see gchecks.a01."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from gchecks import a01
main(a01, 'A01')
