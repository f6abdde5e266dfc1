"""Builds the interpreter once, to show that the framework works here; every check builds what it needs itself."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import build
t = build.Tree()
print(t.mes())
