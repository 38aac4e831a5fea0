"""The command queue of the browser: cases, runs of the real code under controlled schedules, verdicts of QueueTrace."""
import copy
import itertools
import json
import os
import random
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import core
from core import ToolError

RING = os.path.join(core.VERIF, 'ring')
SOURCE = '/repo/js/npm/ringbuf.js'
SAME = {'enqueue': 'push', 'dequeue': 'pop', 'wspace': 'space', 'rcount': 'count'}


def exhaustive(caps):
    """one operation on each side, every interleaving"""
    out = []
    for cap in caps:
        for off in range(cap + 1):
            for fill in range(cap + 1):
                ps = [{'k': 'push', 'b': list(range(11, 11 + n))} for n in range(cap + 2)]
                cs = [{'k': 'pop', 'n': n} for n in range(cap + 2)]
                for p, c in itertools.product(ps, cs):
                    out.append({'cap': cap, 'pre': [off] if off else [], 'fill': list(range(1, fill + 1)), 'p': [p], 'c': [c]})
                for k in ('full', 'empty', 'space', 'wspace', 'count'):
                    for c in cs[1:]:
                        out.append({'cap': cap, 'pre': [off] if off else [], 'fill': list(range(1, fill + 1)), 'p': [{'k': k}], 'c': [c]})
                for k in ('full', 'empty', 'space', 'rcount', 'count'):
                    for p in ps[1:]:
                        out.append({'cap': cap, 'pre': [off] if off else [], 'fill': list(range(1, fill + 1)), 'p': [p], 'c': [{'k': k}]})
    return out


def randomised(r, runs):
    cap = r.choice([1, 2, 3, 4, 5, 8, 16, 100])
    big = cap + 2
    val = itertools.count(1)
    size = lambda: r.choice([0, 1, 1, 2, 3, cap, big, r.randrange(big + 1)])
    byte = lambda: [next(val) % 256 for _ in range(size())]
    p = [r.choice([lambda: {'k': 'push', 'b': byte()}, lambda: {'k': 'enqueue', 'b': byte()}, lambda: {'k': 'push', 'b': byte()},
                   lambda: {'k': r.choice(['full', 'space', 'wspace', 'empty', 'count'])}])() for _ in range(r.randrange(1, 6))]
    c = [r.choice([lambda: {'k': 'pop', 'n': size()}, lambda: {'k': 'dequeue', 'n': size()}, lambda: {'k': 'pop', 'n': big},
                   lambda: {'k': r.choice(['empty', 'count', 'rcount', 'full', 'space'])}])() for _ in range(r.randrange(1, 6))]
    return {'cap': cap, 'pre': [r.randrange(1, cap + 1) for _ in range(r.randrange(0, 3))],
            'fill': [next(val) % 256 for _ in range(r.randrange(0, cap + 1))], 'p': p, 'c': c, 'mode': 'random', 'runs': runs,
            'seed': r.randrange(1 << 30)}


def large(r):
    """the sizes the queue is used with: commands of thousands of bytes"""
    cap = r.choice([1000, 2047, 4096, 5000])
    val = itertools.count(r.randrange(256))
    size = lambda: r.choice([cap, cap + 1, r.randrange(cap + 2), 1023 + r.randrange(3), 2047 + r.randrange(3)])
    byte = lambda: [next(val) % 251 for _ in range(size())]
    return {'cap': cap, 'pre': [r.randrange(1, cap + 1) for _ in range(r.randrange(0, 3))],
            'fill': [next(val) % 251 for _ in range(r.choice([0, r.randrange(cap + 1), cap]))],
            'p': [{'k': r.choice(['push', 'enqueue']), 'b': byte()} for _ in range(r.randrange(1, 3))],
            'c': [{'k': r.choice(['pop', 'dequeue']), 'n': size()} for _ in range(r.randrange(1, 4))],
            'mode': 'random', 'runs': 2, 'seed': r.randrange(1 << 30)}


def run_cases(cases, wd, tag):
    """the different runs of every case, and the number of runs"""
    src = os.path.join(wd, 'ringbuf.mjs')
    shutil.copyfile(SOURCE, src)
    n = 6
    def go(i):
        mine = cases[i::n]
        fin, fout = os.path.join(wd, '%s%d.in' % (tag, i)), os.path.join(wd, '%s%d.out' % (tag, i))
        with open(fin, 'w') as f:
            for c in mine:
                f.write(json.dumps(c) + '\n')
        r = subprocess.run(['node', os.path.join(RING, 'drive.mjs'), fin, fout, src], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=3000)
        if r.returncode != 0:
            # the queue cannot even be set up, or the harness is broken
            return None, r.stdout[-1500:]
        return [json.loads(l) for l in open(fout)], ''
    with ThreadPoolExecutor(n) as ex:
        got = list(ex.map(go, range(n)))
    recs, runs, complete, err = [], 0, 0, ''
    for g, e in got:
        if g is None:
            err = e
            continue
        for x in g:
            if 'summary' in x:
                runs += x['runs']
                complete += x['complete']
            else:
                recs.append(x)
    return recs, runs, complete, err


CONFORMS = re.compile(r'^"CONFORMS (\S+)"$', re.M)


def conforming(recs, wd, tag):
    f = os.path.join(wd, tag + '.ndjson')
    with open(f, 'w') as o:
        for r in recs:
            ev = []
            for e in r['ev']:
                k = SAME.get(e['k'], e['k'])
                if e['e'] == 'call':
                    op = {'k': k}
                    if 'b' in e:
                        op['b'] = e['b']
                    if 'n' in e:
                        op['n'] = e['n']
                    ev.append({'e': 'call', 's': e['s'], 'op': op})
                else:
                    x = {'e': 'ret', 's': e['s'], 'r': e['r']}
                    if 'b' in e:
                        x['b'] = e['b']
                    ev.append(x)
            o.write(json.dumps({'id': r['id'], 'cap': r['cap'], 'fill': r['fill'], 'ev': ev}) + '\n')
    t = core.tlc('QueueTrace', 'QueueTrace.cfg', wd, {'TRACE_FILE': f})
    if t['code'] != 0:
        raise ToolError('TLC failed on %s:\n%s' % (f, t['out'][-3000:]))
    os.remove(f)
    return set(CONFORMS.findall(t['out'])), t['distinct'], t['states']


def corrupted(recs, n=4):
    out = []
    for r in recs:
        rets = [i for i, e in enumerate(r['ev']) if e['e'] == 'ret' and e['k'] in ('pop', 'dequeue') and e['r'] > 0]
        if not rets:
            continue
        c = copy.deepcopy(r)
        e = c['ev'][rets[0]]
        if len(out) % 2:
            e['b'][0] += 77
        else:
            e['r'] -= 1
            e['b'] = e['b'][:-1] + [200]
        c['id'] = 'corrupt%d' % len(out)
        out.append(c)
        if len(out) == n:
            break
    return out


def text_of(r):
    out = ['capacity %d, %s in the queue' % (r['cap'], r['fill'])]
    for e in r['ev']:
        who = 'producer' if e['s'] == 'p' else 'consumer'
        out.append('%s %s %s %s' % (who, 'calls' if e['e'] == 'call' else 'returns from', e['k'],
                                    {k: e[k] for k in ('b', 'n', 'r') if k in e}))
    return out


def judge(ctx, cases, tag, selftest=True):
    for i, c in enumerate(cases):
        c['id'] = '%s%d' % (tag, i)
    by = {c['id']: c for c in cases}
    recs, runs, complete, err = run_cases(cases, ctx.wd, tag)
    if err:
        if 'harness:' in err:
            raise ToolError(err)
        ctx.violation(tag + '-setup', 'the queue could not be used: ' + err, {'kind': 'ring', 'case': cases[0], 'readable': [err]})
        return
    for r in recs:
        r['fill'] = by[r['case']]['fill']
    dead = [r for r in recs if r['failed']]
    live = [r for r in recs if not r['failed']]
    wrong = corrupted(live) if selftest else []
    good, st, tr = conforming(live + wrong, ctx.wd, tag)
    ctx.states += st
    ctx.transitions += tr
    ctx.traces += runs
    ctx.count('schedules_run', runs)
    ctx.count('cases_with_every_interleaving', complete)
    ctx.count('different_runs', len(recs))
    ctx.count('corrupted_recordings_refused', len(wrong))
    ctx.samples += [text_of(r) for r in recs[:1] + recs[-1:]]
    bad = dead + [r for r in live if r['id'] not in good]
    if not bad:
        if any(c['id'] in good for c in wrong):
            raise ToolError('the model accepted a corrupted recording')
        return
    bad.sort(key=lambda r: len(r['ev']))
    for r in bad[:3]:
        case = dict(by[r['case']], mode='fixed', schedule=r['schedule'])
        again, _, _, e = run_cases([case], ctx.wd, tag + 'x')
        if e or not again:
            continue
        a = dict(again[0], fill=r['fill'])
        if a['failed'] or a['id'] not in conforming([a], ctx.wd, tag + 'x')[0]:
            ctx.violation(r['id'], a['failed'] or 'no order of effects explains what the two sides were told: ' +
                          '; '.join(text_of(a)), {'kind': 'ring', 'case': case, 'readable': text_of(a)})


def part(ctx):
    cases = exhaustive([1, 2, 3])
    r = random.Random(ctx.seed * 97 + 5)
    if not ctx.thorough:
        small = [c for c in cases if c['cap'] <= 2]
        cases = small + r.sample([c for c in cases if c['cap'] > 2], 60)
    for c in cases:
        c.update(mode='all', limit=60000 if ctx.thorough else 5000)
    judge(ctx, cases, 'every')
    if ctx.violations:
        return
    judge(ctx, [randomised(r, 60) for _ in range(4000 if ctx.thorough else 400)], 'random')
    if ctx.violations:
        return
    judge(ctx, [large(r) for _ in range(400 if ctx.thorough else 60)], 'large')


def model(ctx):
    """the ring buffer algorithm implements the queue for all interleavings; wrong variants of it do not"""
    t = core.tlc('RingImpl', 'RingImpl.cfg', ctx.wd)
    if t['code'] != 0:
        raise ToolError('RingImpl does not implement Queue:\n' + t['out'][-2000:])
    ctx.states += t['distinct']
    ctx.transitions += t['states']
    for c in ('RingImplPublish.cfg', 'RingImplOff.cfg'):
        if core.tlc('RingImpl', c, ctx.wd)['code'] == 0:
            raise ToolError('wrong variant %s was not refused' % c)
        ctx.count('wrong_variants_refused', 1)


def replay(ctx, d):
    judge(ctx, [d['case']], 'replay', selftest=False)
