#!/usr/bin/env python3
"""Builds the IR reader and the clang plugin (both also built on demand)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'checks'), os.path.join(V, 'engine')]
import queries, runner
print(runner.irdump_path()); print(queries.plugin())
