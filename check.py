#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--only REGEX] [-v]"""
import sys, os, argparse
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1'); sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import runner
a = argparse.ArgumentParser()
a.add_argument('property'); a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
a.add_argument('--only'); a.add_argument('-v', action='store_true')
o = a.parse_args()
sys.exit(runner.main(o.property, o.tier, o.only, o.v))
