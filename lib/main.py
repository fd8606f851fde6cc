import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(os.path.dirname(here), 'checks')]
import pbt

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    rc = pbt.main(mod.Check(), sys.argv[2:])
    sys.stdout.flush()
    sys.exit(rc)
