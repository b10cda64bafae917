#!/usr/bin/env python3
"""F05: see fchecks.f05."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from fchecks import f05
main(f05, 'F05')
