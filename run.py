#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE]: decide one property (see vlib/runner.py)."""
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/verif-pycache"  # never read byte code that lies beside the sources
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1:]))
