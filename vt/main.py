# -*- coding: utf-8 -*-
import argparse
import importlib
import os
import sys

from vt import env


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER')
                        or 'quick')
    parser.add_argument('--replay')
    args = parser.parse_args()
    env.setup()
    from vt import core
    mod = importlib.import_module('vt.props.%s' % args.prop.lower())
    prop = mod.PROP
    if args.replay:
        return core.replay(prop, args.replay)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return core.run(prop, args.tier, seed)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
