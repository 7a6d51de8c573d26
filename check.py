#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current tree. See DESIGN.md."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import driver
sys.exit(driver.main(sys.argv[1:]))
