#!/usr/bin/env python3
"""check.py <property id>: see lib/check.py"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import check, registry
check.main(registry.CHECKS)
