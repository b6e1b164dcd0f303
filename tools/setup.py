#!/usr/bin/env python3
"""Builds the syntax-tree extractor (offline, from the committed source)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vstat'))
import facts
print(facts.tool())
