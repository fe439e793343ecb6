#!/usr/bin/env python3
"""Runs the check of one property: run.py ID [quick|thorough] [--repo DIR]"""
import sys
sys.path.insert(0, __file__.rsplit('/', 1)[0] or '.')
from sa.main import main
sys.exit(main(sys.argv[1:]))
