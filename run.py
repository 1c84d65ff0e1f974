#!/usr/bin/env python3-vt
"""run.py <property> [--tier quick|thorough]"""
import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
ap = argparse.ArgumentParser()
ap.add_argument('pid')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
a = ap.parse_args()
m = importlib.import_module('checks.' + a.pid)
sys.exit(m.main(a.tier))
