#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Otherwise: error of the check."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import framework, checks


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    fn = checks.CHECKS[prop]
    ctx = framework.Ctx(prop, tier, seed)
    try:
        return fn(ctx)
    except framework.BuildFailure as e:
        print('build failure: %s\n%s' % (e.what, e.log))
        if ctx.violations:
            return ctx.finish('ended early by a build failure')
        return 2
    except framework.HarnessError as e:
        # what was already observed still counts
        print('harness error: %s' % e)
        if ctx.violations:
            return ctx.finish('ended early by a harness error')
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc if rc is not None else 2)
