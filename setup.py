#!/usr/bin/env python3
"""Builds the fact exporter (tool/kosfacts.cpp) once; checks reuse it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import ir
print(ir.tool_path())
