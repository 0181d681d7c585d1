"""run_driver.py ID: record traces of the real code for one property"""
import importlib
import os
import sys
import traceback

import pv

if __name__ == "__main__":
    pid = sys.argv[1]
    import pystruct
    assert os.path.abspath(pystruct.__file__).startswith(os.path.abspath(pv.TREE) + os.sep), pystruct.__file__
    from checks import CHECKS
    mod, fn = CHECKS[pid]["driver"].split(".")
    pv.REC = pv.Recorder(os.environ["PV_OUT"])
    pv.watch_ad3()
    fun = getattr(importlib.import_module(mod), fn)
    try:
        fun()
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        # a result the recorder cannot even read is no step of the specification
        traceback.print_exc()
        if pv.REC.cur is None:
            pv.REC.trace("driver")
        pv.REC.ev("exception", what="uncaught", err="%s: %s" % (type(e).__name__, str(e)[:300]),
                  tb=traceback.format_exc()[-1500:])
    pv.REC.end()
    print("%d traces" % pv.REC.n)
    sys.stdout.flush()
