#!/usr/bin/env python3
'''Build what the checks need and make sure that one seed gives one execution.'''
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import boot  # noqa: E402

boot.reexec()
from dst import runner, selftest  # noqa: E402, F401

sys.exit(selftest.main())
