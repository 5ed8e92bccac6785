"""setup_cmd: compiles what the checks use and parses every specification, so that a broken sandbox shows here"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
try:
    for t in ('welder', 'straightener'): print(vf.build(t))
    r = vf.tlc('ArithTest', 'INIT Init\nNEXT Next\n' if False else open(os.path.join(vf.SPEC, 'ArithTest.cfg')).read(), workers=1)
    print('TLC', 'ok' if r.ok else 'failed')
    sys.exit(0 if r.ok else 1)
finally:
    vf.cleanup()
