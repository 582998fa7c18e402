#!/usr/bin/env python3
"""usage: check.py <property> [quick|thorough]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/sa')
import runner
import importlib
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
mod = importlib.import_module(pid.lower())
sys.exit(runner.main(pid, tier, mod.check, getattr(mod, 'META', {})))
