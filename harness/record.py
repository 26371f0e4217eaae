"""record.py IN OUT: runs every history of IN (ndjson) on the real library."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import multiprocessing as mp
import core


def main():
    src, dst = sys.argv[1:3]
    hists = [json.loads(x) for x in open(src) if x.strip()]
    n = int(os.environ.get('DOA_JOBS', '8'))
    if n > 1 and len(hists) > 4:
        with mp.get_context('fork').Pool(min(n, len(hists)), maxtasksperchild=200) as pool:
            res = pool.map(core._work, hists, chunksize=max(1, min(8, len(hists) // (n * 3) or 1)))
    else:
        res = [core._work(x) for x in hists]
    with open(dst, 'w') as f:
        for r in res:
            f.write(json.dumps(r, separators=(',', ':')) + '\n')
    bad = [r for r in res if 'error' in r]
    if bad:
        sys.stderr.write('machinery error: %s\n' % bad[0]['error'])
        sys.exit(3)


if __name__ == '__main__':
    import ops  # noqa: F401  (import errors of the library show up here, before the pool starts)
    main()
