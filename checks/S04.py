#!/usr/bin/env python3
"""S04: see stchecks.s04."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from stchecks import s04
main(s04, 'S04')
