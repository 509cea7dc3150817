"""python3 -m mfcheck C01 [quick|thorough]"""
import os
import resource
import signal
import sys
import traceback

from .model import Program, AnalysisBroken
from .report import Report


def driver(prop):
    from .checks import registry
    return registry.get(prop)


class OutOfTime(BaseException):
    pass


def limits(tier):
    """an analysis that does not come to an end leaves its obligations undecided"""
    def stop(*_):
        raise OutOfTime(f"no result within {secs} s")
    secs = int(os.environ.get("MFCHECK_SECONDS", 500 if tier == "quick" else 820))
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(secs)
    gb = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.setrecursionlimit(20000)
    try:
        prog = Program()
        method, fn = driver(prop)
        rep = Report(prop, tier, method)
        limits(tier)
        try:
            fn(prog, rep, prop, tier)
        except AnalysisBroken:
            raise
        except (OutOfTime, Exception) as e:
            # what was found before stands; the rest is open, which the evidence says
            at = traceback.extract_tb(e.__traceback__)[-1]
            print(f"UNDECIDED property={prop}: the analysis stopped: {type(e).__name__} {str(e)[:200]} "
                  f"({os.path.basename(at.filename)}:{at.lineno})")
            rep.ob(f"{prop}.analysis", None, "", f"the analysis stopped: {type(e).__name__} {str(e)[:300]}")
        signal.alarm(0)
        return rep.finish()
    except AnalysisBroken as e:
        print(f"analysis error: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
