#!/usr/bin/env python3
"""run.py P01 [--thorough] [--only CASE] [--verbose] [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib.check import main
sys.exit(main(sys.argv[1:]))
