"""Runs inside /opt/venv: replays scenarios with a driver function, one JSON line per scenario."""
import importlib
import json
import logging
import sys
import traceback


def main():
    driver, func, inp, outp = sys.argv[1:5]
    import parcels  # the tree under test
    logging.disable(logging.WARNING)
    f = getattr(importlib.import_module(driver), func)
    from drvlib import MachineryFailure
    print('WORKER-READY', parcels.__file__, flush=True)
    with open(outp, 'a') as out:
        for i, s in json.load(open(inp)):
            try:
                r = {'ok': f(s)}
            except MachineryFailure as e:
                r = {'machinery': str(e)}
            except Exception as e:
                r = {'exc': '%s: %s' % (type(e).__name__, str(e)[:400]), 'tb': traceback.format_exc()[-1500:]}
            out.write(json.dumps({'i': i, 'r': r}) + '\n')
            out.flush()
    import os
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
