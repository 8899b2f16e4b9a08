#!/usr/bin/env python3
"""builds the extractor (no network) and warms its cache for the current tree"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/engine']
import driver
driver.extract()
print('ready')
