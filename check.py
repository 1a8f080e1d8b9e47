#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.

  check.py <property> [--tier quick|thorough] [--seed N] [--seconds S]
  check.py replay <file>
  check.py build
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import driver
if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
