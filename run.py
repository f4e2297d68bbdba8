#!/usr/bin/env python3
"""
    run.py check P01 [--tier quick|thorough] [--count N]     decide one property
    run.py replay FILE                                       reproduce a reported violation
    run.py selftest [P01 ...]                                determinism of the simulator
    run.py setup                                             what MANIFEST's setup_cmd runs

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check
itself failed, and says nothing about the property.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dst import boot          # noqa: E402

if __name__ == '__main__':
    sys.argv[0] = os.path.abspath(__file__)
    boot.reexec()
    from dst import driver
    sys.exit(driver.main(sys.argv[1:]))
