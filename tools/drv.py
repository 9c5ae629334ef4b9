"""build and run one driver: drv.py dNN.cpp [seconds] [seed]"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
s = tempfile.mkdtemp(prefix='drv')
try:
    extra = []
    for k, c in check.CONFIG.items():
        if c.get('driver') == sys.argv[1]: extra = c.get('driver_flags', [])
    d = check.Driver(sys.argv[1], s, extra)
    if not d.build(): print(d.err); sys.exit(2)
    f, k, n, t = d.run(int(sys.argv[3]) if len(sys.argv) > 3 else 1, float(sys.argv[2]) if len(sys.argv) > 2 else 4)
    print(t if f or '-v' in sys.argv else ''); print('FAILS', f[:10], 'KNOWN', k, 'EVALS', n)
finally: shutil.rmtree(s)
