#!/usr/bin/env python3
import sys, os, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        c = mod.make()
        c.run()
        if hasattr(mod, 'after'): mod.after(c)
        sys.exit(c.finish())
    except core.CheckError as e:
        print('ERROR: ' + str(e)); sys.exit(2)
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
main()
