#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Builds the library from /repo's working tree, searches generated inputs for a violation of the
property, writes evidence/PROPERTY.json. Exit 0: held on everything explored; 1: VIOLATION line printed.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver
if __name__ == "__main__":
    driver.main(sys.argv[1:])
