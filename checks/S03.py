#!/usr/bin/env python3
"""S03: see schecks.s03."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
from vlib import *
from schecks import s03
main(s03, 'S03')
