"""usage: python3-vt check.py <property id> | --selftest"""
import os
import warnings
import sys

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if sys.argv[1] == "--selftest":
    from sx import selftest

    sys.exit(selftest.main())
from sx import runner

runner.main(sys.argv[1])
