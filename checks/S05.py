#!/usr/bin/env python3
"""S05: see stchecks.s05."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from stchecks import s05
main(s05, 'S05')
