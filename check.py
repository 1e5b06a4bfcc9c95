#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import driver
from vlib.checks import CHECKS
sys.exit(driver.main(CHECKS))
