#!/usr/bin/env python3
"""Builds the harness once (each check rebuilds what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import build, say, CheckError
try:
    say("built for orders", ", ".join(build(["4", "5", "6", "8"])))
except CheckError as e:
    say(e)
