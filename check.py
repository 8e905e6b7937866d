#!/usr/bin/env python3
"""check.py <ID> quick|thorough      run one property's check
   check.py --replay <file>          run one reported violation again
   check.py --setup                  build everything once"""
import importlib, json, os, signal, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(av):
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    from mc import core, build
    if av[:1] == ['--setup']:
        print(build.tool('mcrun'))
        print(build.aardwarc())
        return 0
    if av[:1] == ['--replay']:
        d = json.load(open(av[1]))
        importlib.import_module('checks.' + d['property'].lower())
        case = core.case_unjson(json.dumps(d['case']))
        again, err = core.confirm(d['family'], case, d['key'])
        if err:
            print(err)
        if again:
            print(f"VIOLATION property={d['property']} replay={av[1]}")
            print('  ' + d['key'] + ': ' + again[0][3])
            return 1
        print('does not fail')
        return 0
    pid = av[0]
    tier = av[1] if len(av) > 1 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('checks.' + pid.lower())
    return core.run_check(mod, pid, tier, int(os.environ.get('VERIF_SEED', '1')))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
