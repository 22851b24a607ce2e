"""python -m harness.run <property> quick|thorough"""
import importlib
import json
import logging
import os
import shutil
import sys
import traceback

from harness import vlib


def from_code(ex):
    """True when the exception was raised by (or below) the code under test."""
    return any(fr.filename.startswith(os.environ.get('FRM_REPO', '/repo') + '/') for fr in traceback.extract_tb(ex.__traceback__))


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    logging.disable(logging.CRITICAL)
    from harness.registry import REGISTRY
    mod, fn = REGISTRY[pid]
    chk = vlib.Check(pid, tier)
    try:
        m = importlib.import_module('harness.' + mod)
        try:
            getattr(m, fn)(chk)
        except vlib.MachineryError:
            raise
        except Exception as ex:
            if not from_code(ex):
                raise
            # the code under test failed where every request is served: an observed violation, not an error of the check
            chk.traces += 1
            chk.fails.append(({'failure': traceback.format_exc()[-3000:], 'tags': []}, 'the code serves the request', 'driver'))
        rc = chk.finish()
    finally:
        shutil.rmtree(chk.scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
