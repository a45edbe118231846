#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property symbolically."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)

if __name__ == '__main__':
    from symx import runner
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not \
        sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(runner.main(pid, tier, sys.argv[2:]))
