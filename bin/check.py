#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from props import PROPS
vlib.main(PROPS)
