import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import common


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    common.use_repo()
    mod = importlib.import_module('vt.checks.' + pid.lower())
    chk = common.Check(pid, tier=tier, rule=getattr(mod, 'RULE', ''), assumptions=getattr(mod, 'ASSUMPTIONS', ()))
    try:
        mod.run(chk)
    except Exception:
        traceback.print_exc()
        if chk.viol:
            chk.finish()
        print('INCONCLUSIVE property=%s: harness error' % pid)
        sys.exit(3)
    chk.finish()


main()
