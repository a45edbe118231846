#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample on the plain code in /repo.
replay.py --batch PROPERTY: the same for a JSON list on stdin."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)


def main():
    from symx import hook, runner
    rec = None
    if sys.argv[1] != '--batch':
        rec = json.load(open(sys.argv[1]))
    if runner.LXML or rec and rec.get('lxml'):
        runner.real_lxml()
    hook.install_plain()
    sys.path.insert(0, runner.VERIF)
    if sys.argv[1] == '--batch':
        pid = sys.argv[2]
        items = json.load(sys.stdin)
        mod = runner.load_property(pid)
        if hasattr(mod, 'warm_up'):
            mod.warm_up()
        snap = hook.Snapshot()
        out = []
        stdout = sys.stdout
        sys.stdout = sys.stderr
        for it in items:
            snap.restore()
            out.append(runner.run_concrete(pid, it['harness'], it['inputs']))
        sys.stdout = stdout
        print(json.dumps(out))
        return 0
    r = runner.run_concrete(rec['property'], rec['harness'], rec['inputs'])
    print(json.dumps(r, indent=1))
    print('REPRODUCED' if r['failed'] else 'not reproduced')
    return 1 if r['failed'] else 0


if __name__ == '__main__':
    sys.exit(main())
