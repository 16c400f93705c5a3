#!/usr/bin/env python3
"""./check.py <property> quick|thorough   decide one property on /repo's current tree (see DESIGN.md)"""
import os
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)
threading.stack_size(512 << 20)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import core
    from rules import all as rules
    fn, meta = rules.PROPS[prop], rules.META.get(prop, {})
    ctx = core.Ctx(prop, tier, seed)
    ctx.prog
    try:
        with core.limit(840 if tier == 'quick' else 860):
            fn(ctx)
    except core.Timeout:
        ctx.undecided('analysis', 'time budget exhausted', '')
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        ctx.undecided('analysis', 'construct outside the analysed fragment: %s: %s' % (type(e).__name__, str(e)[:300]), '')
    if os.environ.get('VERIF_DEBUG'):
        for o in ctx.obs:
            if o[1] != 'proved' or os.environ['VERIF_DEBUG'] == '2':
                print(o)
    return core.finish(ctx, meta.get('level', 'static-proof'), meta.get('assumptions', []), meta.get('technique', ''))


if __name__ == '__main__':
    main_thread_rc = main()
    sys.stdout.flush()
    os._exit(main_thread_rc)
