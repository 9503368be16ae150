"""check <property> <tier>: decide one property on /repo's current tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import report  # noqa: E402

def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module(prop.lower())
    r = report.Report(prop, tier)
    with build.Build() as b:
        try:
            mod.check(b, r, tier)
        except build.BuildError as e:
            r.violation('build', 'does not compile: %s\n%s' % (e.what, e.text))
        except Exception:
            r.violation('analysis-failed', traceback.format_exc())
    return r.finish()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
