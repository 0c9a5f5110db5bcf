#!/usr/bin/env python3
'''Usage: check.py <property id>; see DESIGN.md'''
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import boot  # noqa: E402

boot.reexec()
from dst import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1]))
