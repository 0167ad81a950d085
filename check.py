#!/usr/bin/env python3
"""Decide one property: check.py <id> [quick|thorough]"""
import importlib, os, sys
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
from registry import REG
prop = sys.argv[1]
m = importlib.import_module(REG[prop]["mod"])
sys.exit(core.main(prop, m.CHECKS[prop]))
