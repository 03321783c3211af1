#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.stdout.reconfigure(line_buffering=True)
from vp.common import Report, ToolError


def main():
    prop = sys.argv[1]
    from vp import props
    try:
        return props.CHECKS[prop](Report(prop))
    except ToolError as e:
        print('check failed:', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
