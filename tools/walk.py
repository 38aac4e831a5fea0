"""Every edit from every program to every other of a small world: the algorithm as a model, the engine by replay."""
import json
import os

import core
import glang
from core import ToolError

WRONG = ('last', 'leak', 'residue', 'norollback', 'noreset', 'nobackup')


def model(ctx):
    """the update algorithm implements Edits; wrong variants of it do not"""
    t = core.tlc('EngineImpl', 'EngineImplLarge.cfg' if ctx.thorough else 'EngineImpl.cfg', ctx.wd, timeout=9000)
    if t['code'] != 0:
        raise ToolError('EngineImpl does not implement Edits:\n' + t['out'][-2000:])
    ctx.states += t['distinct']
    ctx.transitions += t['states']
    for w in WRONG:
        if core.tlc('EngineImpl', 'EngineImpl_%s.cfg' % w, ctx.wd)['code'] == 0:
            raise ToolError('wrong variant %s was not refused' % w)
        ctx.count('wrong_variants_refused', 1)


def programs(ctx):
    f = os.path.join(ctx.wd, 'programs.json')
    t = core.tlc('EngineImpl', 'EngineImplProgramsLarge.cfg' if ctx.thorough else 'EngineImplPrograms.cfg', ctx.wd, {'PROGRAMS': f})
    if t['code'] != 0 or not os.path.exists(f):
        raise ToolError('no programs:\n' + t['out'][-2000:])
    return json.load(open(f))


def circuit(n):
    """all ordered pairs of 0..n-1 once, each with itself too, as one closed walk"""
    left = [list(range(n)) for _ in range(n)]
    stack, out = [0], []
    while stack:
        v = stack[-1]
        if left[v]:
            stack.append(left[v].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def history(progs, bad, steps, visits, i):
    ops = []
    for k in steps:
        p = progs[k]
        ops += [{'op': 'update', 'prog': p, 'text': glang.program(p)}, {'op': 'block'}]
        if visits[k] < len(bad):
            p = bad[(visits[k] + k) % len(bad)]
            ops += [{'op': 'update', 'prog': p, 'text': glang.program(p)}, {'op': 'block'}]
            visits[k] += 1
    return {'id': 'h%d' % i, 'n': 4, 'sr': 16, 'ops': ops}


def part(judge):
    def run(ctx):
        ctx.streams()
        ps = programs(ctx)
        good = [p['prog'] for p in ps if p['ok']]
        bad = [p['prog'] for p in ps if not p['ok']]
        order = circuit(len(good))
        if len(order) != len(good) ** 2 + 1 or len(bad) > len(good):
            raise ToolError('the walk does not cover all edits')
        visits = [0] * len(good)
        size = 40
        hs = [history(good, bad, order[a:a + size + 1], visits, a // size) for a in range(0, len(order) - 1, size)]
        ctx.count('edits_in_all_pairs', len(order) - 1)
        ctx.count('refused_edits_in_all_pairs', sum(visits))
        for a in range(0, len(hs), 4000):
            judge(ctx, hs[a:a + 4000], 'w%d' % a)
            if ctx.violations:
                return
    return run
