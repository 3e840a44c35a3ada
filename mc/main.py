import importlib, json, logging, os, sys, io
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = ['/repo', os.path.dirname(HERE)]
sys.setrecursionlimit(5000)
import logzero
logzero.loglevel(logging.CRITICAL)
from mc import engine


def main():
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            pid = json.load(f)['property']
        m = importlib.import_module('mc.checks.' + pid.lower())
        return engine.replay(sys.argv[2], m.FAMILIES)
    pid = sys.argv[1]
    m = importlib.import_module('mc.checks.' + pid.lower())
    import neocore
    assert os.path.realpath(neocore.__file__).startswith('/repo/'), neocore.__file__
    return engine.run_property(pid, m.FAMILIES, getattr(m, 'ASSUMPTIONS', []))


sys.exit(main())
