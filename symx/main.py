import os, sys, importlib
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
from symx import harness

def load_props(prop):
    for f in sorted(os.listdir(os.path.join(D, 'props'))):
        if f.endswith('.py') and (prop is None or f.startswith(prop)):
            importlib.import_module('props.' + f[:-3])

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--replay':
        import json
        load_props(json.load(open(a[1]))['property'])
        sys.exit(harness.replay(a[1]))
    load_props(a[0])
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    rc = harness.main(a[0], tier, only=a[2] if len(a) > 2 else None)
    sys.stdout.flush()
    os._exit(rc)
