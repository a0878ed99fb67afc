#!/usr/bin/env python3
"""Prepares what the checks need: the exported catalogue. Everything else is built from /repo by each check."""
import sys
sys.dont_write_bytecode = True
from nxv import core
core.catalogue()
core.build("plain")
