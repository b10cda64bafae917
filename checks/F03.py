#!/usr/bin/env python3
"""F03: see fchecks.f03."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from fchecks import f03
main(f03, 'F03')
