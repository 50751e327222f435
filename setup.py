"""Builds the MIR dumper and warms the cache of MIR dumps (checks rebuild whatever is missing or out of date)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import build
from rules import all as R

build.driver()
try:
    for n in ['main'] + sorted({f for c in R.CONFIGS.values() for f in c.get('extra', ())}):
        build.get(n)
except build.BuildError as e:
    print(e)
