#!/usr/bin/env python3
'''Usage: replay.py <replay file>: run the recorded schedule again, exit 1 if it fails the same way'''
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import boot  # noqa: E402

boot.reexec()
from dst import runner  # noqa: E402

sys.exit(runner.replay(sys.argv[1]))
