#!/usr/bin/env python3
"""Decides one property:  check.py P01 [--tier quick|thorough] [--seed N] [--replay FILE] | --setup

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself failed."""
import argparse
import json
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import parts
from core import ToolError, VERIF, EVID, WORK

FINDINGS = os.path.join(VERIF, 'known_findings.json')


def known(pid):
    with open(FINDINGS) as f:
        return [k for k in json.load(f)['known'] if k['property'] == pid]


def matches(finding, viol):
    """a finding is one specific input or history, given by the key of the violation"""
    return finding['key'] == viol['key']


def write_evidence(pid, tier, seed, ctx, wall, n_viol):
    os.makedirs(EVID, exist_ok=True)
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces,
           'samples': ctx.samples[:6]}
    cov.update(ctx.extra)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(wall, 2), 'violations': n_viol}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')


def run(pid, tier, seed):
    t0 = time.time()
    wd = core.work_dir(pid)
    ctx = parts.Context(pid, tier, seed, wd)
    try:
        for part in parts.PARTS[pid]:
            part(ctx)
            if ctx.violations:
                break               # one counterexample is enough; the later parts may take long
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    listed = known(pid)
    fresh, seen = [], []
    for v in ctx.violations:
        k = [f for f in listed if matches(f, v)]
        (seen if k else fresh).append((v, k))
    for f in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    write_evidence(pid, tier, seed, ctx, time.time() - t0, len(fresh))
    for v, _ in fresh[:5]:
        rep = os.path.join(WORK, 'replay')
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, '%s-%d-%s.json' % (pid, seed, v['key']))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('%s: %s' % (v['key'], v['text']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if fresh:
        return 1
    print('%s held: %d traces of the code, %d states, %.1f s' % (pid, ctx.traces, ctx.states, time.time() - t0))
    return 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property', nargs='?')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a.add_argument('--setup', action='store_true')
    a.add_argument('--replay')
    o = a.parse_args()
    try:
        if o.setup:
            core.build()
            core.build_web()
            print('built')
            return 0
        if o.replay:
            return parts.replay(o.replay)
        return run(o.property, o.tier, o.seed)
    except ToolError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
