import importlib
import json
import sys
import time


def main():
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    from conc import lib
    C = lib.Conc(prop, tier, seed)
    if len(sys.argv) > 5:
        try:
            with open(sys.argv[5]) as f:
                C.hints = json.load(f)
        except (OSError, ValueError):
            pass
    t = time.time()
    err = None
    try:
        with lib.quiet():
            importlib.import_module('conc.' + prop).run(C)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(lib.REPO)]
        err = ''.join(traceback.format_exception(e))[-3000:]
        if inrepo:
            C.fail('no-exception', f'harness of {prop}', f'{type(e).__name__}: {e} at {inrepo[-1].filename}:{inrepo[-1].lineno}')
    rng = __import__('random').Random(seed)
    samples = rng.sample(C.samples, min(4, len(C.samples)))
    with open(out, 'w') as f:
        json.dump({'fails': C.fails, 'evaluations': C.evals, 'distinct': len(C.distinct), 'wall_s': time.time() - t, 'error': err,
                   'samples': [f'{n}: {i[:300]}' for n, i in samples], 'names': sorted({d[0] for d in C.distinct})}, f, indent=1)


main()
