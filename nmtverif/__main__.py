import importlib
import os
import sys
import traceback


def main(argv):
    sys.setrecursionlimit(100000)
    if len(argv) < 2 or argv[0] not in ('check', 'setup'):
        if argv and argv[0] == 'setup':
            from . import cfront
            P = cfront.load(True)
            print('parsed %d functions' % P.nfuncs)
            return 0
        print('usage: python3 -m nmtverif check C01 [quick|thorough]')
        return 2
    from . import core
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = core.Check(prop, tier, seed)
    try:
        m = importlib.import_module('nmtverif.rules.' + prop.lower())
        m.check(c)
        c.run_jobs()
        if hasattr(m, 'after'):
            m.after(c)
    except Exception as e:
        traceback.print_exc()
        c.add('analysis', 'broken', msg=str(e))
    return core.finish(c)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
