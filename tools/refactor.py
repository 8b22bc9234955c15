"""Checks must stay quiet on behaviour-preserving edits: refactor.py SPEC...
Same specs as probe.py; every check named is run and alarms are printed."""
import os
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate  # noqa: E402
import probe  # noqa: E402


def main():
    for p in sys.argv[1:]:
        exec(compile(open(p).read(), p, 'exec'), {'probe': probe.probe})
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for r in ex.map(mutate.one, probe.JOBS):
            bad = r['tests'] != 'survived' or r.get('caught') or r.get('odd')
            print('BAD' if bad else 'quiet', r['mutant'][:120],
                  r if bad else '', flush=True)


if __name__ == '__main__':
    main()
