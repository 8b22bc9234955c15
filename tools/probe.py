"""Quick probes (development only): probe.py SPEC.py...  Each spec calls
probe(property, file, old, new); the change is applied to a private copy, the
stable tests and the check of the property are run; misses are printed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate  # noqa: E402

JOBS = []


def probe(props, path, *edits):
    with open('/repo/task_models/' + path) as f:
        s = f.read()
    for old, new in zip(edits[::2], edits[1::2]):
        if s.count(old) != 1:
            print('%d matches: %s %r' % (s.count(old), path, old[:80]))
            return
        s = s.replace(old, new)
    JOBS.append((path, '%s %s: %r' % (props, path, edits[1][:150]), s,
                 props.split()))


def main():
    for p in sys.argv[1:]:
        exec(compile(open(p).read(), p, 'exec'), {'probe': probe})
    n = {}
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for r in ex.map(mutate.one, JOBS):
            key = r['tests'] if r['tests'] != 'survived' else (
                'caught' if r.get('caught') else 'MISSED')
            n[key] = n.get(key, 0) + 1
            if key != 'caught':
                print(key, r['mutant'], r.get('odd', ''), flush=True)
    print(n)


if __name__ == '__main__':
    main()
