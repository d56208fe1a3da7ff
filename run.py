#!/usr/bin/env python3
"""Entry point: run.py <property id> [quick|thorough]"""
import importlib
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core

if __name__ == '__main__':
    core.main(importlib.import_module('checks.' + sys.argv[1].lower()))
