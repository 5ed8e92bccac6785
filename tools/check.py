#!/usr/bin/env python3
"""check.py <property>: exit 0 held, 1 violation (with its line), 3 error of the check"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
def module(prop):
    import registry
    return registry.CHECKS[prop]
def main():
    prop = sys.argv[1]
    try:
        module(prop)(prop)
        for k in vf.known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
        print('OK property=%s (%.1fs)' % (prop, __import__('time').time() - vf.T0))
        return 0
    except vf.Violation as v:
        path = vf.save_replay(v.prop, dict(property=v.prop, what=v.what, seed=vf.SEED, **v.replay))
        vf.evidence(v.prop, 'model_checking', dict(states=0, transitions=0, traces_validated_against_impl=0, explanation=v.what, samples=[v.what]), violations=1)
        print(v.what)
        print('VIOLATION property=%s replay=%s' % (v.prop, path))
        return 1
    except vf.CheckError as e:
        print('ERROR', e); return 3
    except Exception:
        traceback.print_exc(); return 3
    finally:
        vf.cleanup()
sys.exit(main())
