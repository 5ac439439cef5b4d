"""Runner: python -m mon.main <property> [--replay FILE]

exit 0  held on everything observed
exit 1  violated (line 'VIOLATION property=<id> replay=<path>')
exit 3  inconclusive: a monitor was not reached, the environment failed, or the watchdog fired
"""
import faulthandler
import importlib
import json
import os
import sys
import threading
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
MAX_VIOLATIONS = 3


def _watchdog(seconds):
    def fire():
        print('INCONCLUSIVE: watchdog after %d s' % seconds, flush=True)
        faulthandler.dump_traceback()
        os._exit(3)
    t = threading.Timer(seconds, fire)
    t.daemon = True
    t.start()


def known_findings(prop):
    out = {}
    with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, what = rest.split(' ', 1)
                assert key.startswith('key=')
                out[key[4:]] = what
    return out


# Properties of data without missing values: they hold whether or not missing values are skipped
AMBIENT = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C20',
           'C21', 'C23', 'C24', 'C28', 'C32', 'C33')


def main():
    prop = sys.argv[1]
    replay = None
    if '--replay' in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if replay:
        seed, tier = replay['seed'], replay['tier']
    t0 = time.time()
    _watchdog(840 if tier == 'quick' else 3 * 3600)
    faulthandler.enable()
    warnings.simplefilter('ignore')

    from . import sandbox
    sb = sandbox.Sandbox()
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    sb.allowed.append(os.path.realpath(evdir))
    rc = 3
    try:
        sys.path.insert(0, REPO)
        sys.path.insert(1, HERE)
        reach = sandbox.Reach()
        reach.start()
        import numpy as np
        np.seterr(all='ignore')
        import PyAnEn
        if not os.path.realpath(PyAnEn.__file__).startswith(REPO + '/'):
            print('INCONCLUSIVE: PyAnEn was not imported from /repo')
            return 3
        from .core import Ctx, Violation, Inconclusive, DEFAULTS_KEYS
        assert DEFAULTS_KEYS
        mod = importlib.import_module('props.' + prop.lower())
        sb.start()
        ctx = Ctx(prop, tier, seed, sb, known_findings(prop))
        stop = False
        for name, fn, nq, nt in mod.WORKLOADS:
            if stop:
                break
            if replay and replay['workload'] != name:
                continue
            n = nq if tier == 'quick' else nt
            idxs = [replay['index']] if replay else range(n)
            tw = time.time()
            for i in idxs:
                case = ctx.case(name, i)
                try:
                    case.begin()
                    if prop in AMBIENT:
                        case.ambient()
                    fn(case)
                    case.end()
                except Violation as v:
                    ctx.violate(case, str(v), v.detail)
                except Inconclusive as e:
                    ctx.inconclusive.append('%s[%d]: %s' % (name, i, e))
                except (MemoryError, KeyboardInterrupt):
                    raise
                except Exception as e:
                    tb = traceback.format_exc()
                    if isinstance(e, OSError) and not isinstance(e, sandbox.Escape) and REPO + '/PyAnEn' not in tb:
                        ctx.inconclusive.append('%s[%d]: %r' % (name, i, e))
                    else:
                        ctx.violate(case, 'result could not be evaluated: %s: %s' % (type(e).__name__, str(e)[:300]),
                                    tb[-3000:])
                finally:
                    case.cleanup()
                if len(ctx.violations) >= MAX_VIOLATIONS:
                    stop = True
                    break
            ctx.timing[name] = round(time.time() - tw, 2)
        reach.stop()
        missing = [] if (replay or ctx.violations) else [k for k in getattr(mod, 'REQUIRE', []) if not ctx.counters.get(k)]
        for k in missing:
            ctx.inconclusive.append('monitor never reached: ' + k)
        if not replay and ctx.evaluations == 0:
            ctx.inconclusive.append('no evaluations')
        if ctx.violations:
            rc = 1
        elif ctx.inconclusive:
            rc = 3
        else:
            rc = 0
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
            'coverage': {
                'evaluations': ctx.evaluations,
                'distinct_nontrivial': len(ctx.signatures),
                'rule': mod.RULE,
                'samples': ctx.samples[:6],
                'monitor_events': dict(sorted(ctx.counters.items())),
                'boundary_calls': dict(sorted(ctx.calls.items())),
                'repo_functions_reached': sorted(reach.funcs),
                'repo_lines_reached': len(reach.lines),
                'seconds_per_workload': ctx.timing,
                'known_findings_observed': sorted(ctx.findings),
                'inconclusive': ctx.inconclusive[:10],
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(ctx.violations),
        }
        if not replay:
            with open(os.path.join(evdir, prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        for key in sorted(ctx.findings):
            print('KNOWN-FINDING: property=%s %s' % (prop, ctx.known[key]))
        for m in ctx.inconclusive[:5]:
            print('INCONCLUSIVE: ' + m)
        for path, msg in ctx.violations:
            print('  ' + msg[:600])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        print('%s %s seed=%d: %d evaluations, %d distinct, %d boundary calls, %d violations, %.1f s' % (
            prop, tier, seed, ctx.evaluations, len(ctx.signatures), sum(ctx.calls.values()), len(ctx.violations),
            time.time() - t0))
        return rc
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        sb.close()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
