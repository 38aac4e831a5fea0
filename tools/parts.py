"""The parts of every check.  A part explores something, adds to the counts of the context and reports violations."""
import copy
import json
import os
import subprocess
from collections import Counter

import builder
import core
import fuzz
import gen
import graphs
import pages
import ring
import suites
import walk
from core import ToolError


class Context:
    def __init__(self, pid, tier, seed, wd):
        self.pid, self.tier, self.seed, self.wd = pid, tier, seed, wd
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.extra, self.assumptions = [], [], {}, []
        self.binary = None
        self.noise = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def harness(self):
        if self.binary is None:
            self.binary = core.build()
        return self.binary

    def streams(self):
        if self.noise is None:
            self.noise = json.loads(subprocess.check_output(
                [self.harness(), 'noise', ','.join(map(str, gen.SEEDS)), str(gen.NOISE_LEN)]))
            suites.NOISE = self.noise
        return self.noise

    def violation(self, key, text, data):
        self.violations.append({'property': self.pid, 'key': key, 'text': text, 'data': data})

    def count(self, name, n):
        self.extra[name] = self.extra.get(name, 0) + n


def readable(h):
    """a history as text, for evidence and replay"""
    if h['id'].startswith('g'):
        return graphs.readable(h)
    if 'page' in h:
        return pages.readable(h)
    out = []
    for o in h['ops']:
        k = o['op']
        if k in ('update', 'bad', 'any', 'msg', 'nop', 'anymsg'):
            out.append('%s %s' % (k, o.get('text', '')))
        elif k == 'block':
            out.append('block' + (' with input' if 'in' in o else ''))
        elif k == 'skip':
            out.append('%d blocks' % o['blocks'])
        elif k == 'again':
            out += ['%d times:' % o['times']] + ['  ' + x for x in readable(dict(h, ops=o['ops']))]
        elif k == 'sample':
            out.append('sample %s at %s Hz, %d channels' % (o['name'], o['sr'], len(o.get('data', ()))))
        else:
            out.append('%s %s' % (k, o.get('v', '')))
    return out


def corrupted(recs, n=4):
    """copies of recordings with one recorded value changed; the model has to refuse every one of them"""
    out = []
    for r in recs:
        c = copy.deepcopy(r)
        if 'page' in c:
            ticks = [e for e in c['ev'] if 'l' in e]
            calls = [e for e in c['ev'] if e['op'] in ('deliver', 'tick') and e['calls']]
            if not ticks or not calls:
                continue
            if len(out) % 2:
                ticks[-1]['r'][3] += 1
            else:
                calls[-1]['calls'].pop()
            c['id'] = 'corrupt%d' % len(out)
            out.append(c)
            if len(out) == n:
                break
            continue
        flat = [e['runs'][-1] if 'runs' in e else e for e in c['ev']]
        if 'bufs' in flat[-1]:
            if len(out) % 2 and flat[-1]['ran']:
                flat[-1]['ran'].pop()
            else:
                flat[-1]['bufs'][0]['buf'][0][1] += 1
            c['id'] = 'corrupt%d' % len(out)
            out.append(c)
            if len(out) == n:
                break
            continue
        blocks = [e for e in flat if 'l' in e or 'out' in e]
        ups = [x for x, e in zip(flat, c['ev']) if e['op'] == 'update' and ('v' in x or 'code' in x)]
        if not blocks or not ups:
            continue
        z = len(out) % 4
        grown = [e for e in flat if 'late' in e]
        if grown and z % 2:
            grown[-1]['late'] = grown[-1]['early'] + 600
        elif z == 0:
            b = blocks[-1].get('l', blocks[-1].get('out'))
            b[0] += 9000
        elif z == 1:
            b = blocks[-1].get('r', blocks[-1].get('out'))
            b[-1] -= 9000
        elif 'v' in ups[-1]:
            ups[-1]['v'] = 'sample' if ups[-1]['v'] == 'ok' else 'ok'
        elif z == 2:
            ups[-1]['code'] = 0 if ups[-1]['code'] else 2
        else:
            ups[-1]['message'] += '?'
        c['id'] = 'corrupt%d' % len(out)
        out.append(c)
        if len(out) == n:
            break
    return out


def judge(ctx, hs, tag, module='Trace', cfg='Trace.cfg', command='run', selftest=True):
    """runs histories on the code and checks the recordings; violations are confirmed by a second run"""
    if command == 'page':
        record = lambda items, t: core.run_pages(items, ctx.wd, t)
    else:
        b = core.build_web() if module == 'WebTrace' else ctx.harness()
        record = lambda items, t: core.run_harness(b, command, items, ctx.wd, t)
    recs = record(hs, tag)
    byid = {h['id']: h for h in hs}
    todo = [recs[h['id']] for h in hs if h['id'] in recs]
    wrong = corrupted(todo) if selftest else []
    verdicts, st, tr = core.validate(todo + wrong, {'noise': ctx.streams()}, ctx.wd, tag, module, cfg)
    accepted = [c for c in wrong if verdicts.pop(c['id'])[0] == 'OK']
    ctx.states += st
    ctx.transitions += tr
    ctx.traces += len(todo)
    kinds = Counter(v[0] for v in verdicts.values())
    ctx.count('skipped', kinds['SKIP'])
    ctx.count('corrupted_recordings_refused', len(wrong))
    for r in todo:
        for e in r['ev']:
            ctx.count('op_' + e['op'] + ('_' + e['v'] if isinstance(e.get('v'), str) else ''), 1)
    used = {c['k'] for h in hs for o in h['ops'] for ch in o.get('prog', ()) for c in ch['nodes']}
    ctx.extra['node_kinds'] = sorted(set(ctx.extra.get('node_kinds', [])) | used)
    ctx.samples += [readable(h) for h in hs[:2]]
    bad = [i for i in verdicts if verdicts[i][0] == 'BAD']
    if not bad:
        if accepted:
            raise ToolError('the model accepted a corrupted recording')
        if kinds['SKIP'] * 10 > len(todo):
            raise ToolError('too many histories outside of the number range: %s' % kinds)
        return
    # shortest first, confirmed on a second run
    bad.sort(key=lambda i: len(json.dumps(byid[i])))
    again = [byid[i] for i in bad[:5]]
    recs2 = record(again, tag + '2')
    v2, _, _ = core.validate(list(recs2.values()), {'noise': ctx.streams()}, ctx.wd, tag + '2', module, cfg)
    for h in again:
        if v2[h['id']][0] == 'BAD':
            ctx.violation(tag + '-' + h['id'], v2[h['id']][1],
                          {'history': h, 'readable': readable(h), 'recorded': recs2[h['id']]['ev'],
                           'module': module, 'cfg': cfg, 'command': command})
    ctx.extra['histories_refused'] = len(bad)


def histories(quick, thorough, suite=None, prepare=None, name='h', **how):
    """random histories of a property's suite, recorded from the code and replayed on the model"""
    def part(ctx):
        ctx.streams()
        n = thorough if ctx.thorough else quick
        f = suite or suites.SUITES[ctx.pid]
        step = 8000
        for a in range(0, n, step):
            hs = [f(ctx.seed, i) for i in range(a, min(a + step, n))]
            tag = name if a == 0 else '%s%d' % (name, a // step)
            if prepare:
                prepare(hs, ctx.wd, 'w' + tag)
            judge(ctx, hs, tag, **how)
            if ctx.violations:
                return
    return part


def sifted(quick, thorough, suite, first, name='s'):
    """many more histories on the code alone; those that do not end as they should go to the model"""
    def part(ctx):
        n = thorough if ctx.thorough else quick
        step = 12000
        for a in range(first, first + n, step):
            hs = [suite(ctx.seed, i) for i in range(a, min(a + step, first + n))]
            recs = core.run_harness(ctx.harness(), 'run', hs, ctx.wd, name)
            ctx.count('histories_run_without_a_crash', len(recs))
            odd = [h for h in hs if h['id'] in recs and any('panic' in e or e['op'] == 'hang' for e in recs[h['id']]['ev'])]
            if odd:
                ctx.count('histories_run_without_a_crash', -len(odd))
                judge(ctx, odd[:50], name, selftest=False)
            if ctx.violations:
                return
    return part


def replay(path):
    v = json.load(open(path))
    ctx = Context(v['property'], 'quick', 1, core.work_dir('replay'))
    d = v['data']
    if d.get('kind') == 'ring':
        ring.replay(ctx, d)
    else:
        ctx.streams()
        judge(ctx, [d['history']], 'replay', d['module'], d['cfg'], d['command'], selftest=False)
    for x in ctx.violations:
        print('\n'.join(d['readable']))
        print(x['text'])
    print('reproduced' if ctx.violations else 'not reproduced')
    return 1 if ctx.violations else 0


PARTS = {p: [histories(2500, 40000)] for p in suites.SUITES}
for p in ('P01', 'P02', 'P03', 'P04', 'P19'):
    PARTS[p].append(walk.part(judge))
for p in suites.LONG:
    PARTS[p].append(histories(72, 3000, suite=suites.left_alone(p), name='l'))
PARTS['P04'].insert(0, walk.model)
PARTS['P19'].append(histories(250, 5000, suite=suites.over_and_over, name='m'))
PARTS['P09'] = [histories(1500, 20000, module='Streams', cfg='Streams.cfg', command='sizes')]
PARTS['P15'] = [histories(5000, 80000, suite=fuzz.history), sifted(12000, 300000, fuzz.at_edges, 0, 'e'),
                sifted(24000, 600000, fuzz.history, 1000000)]
PARTS['P17'] = [ring.model, ring.part]
PARTS['P18'] = [histories(3000, 30000, module='WebTrace', cfg='WebTrace.cfg')]
PARTS['P22'] = [histories(20000, 400000, suite=graphs.history, module='GraphTrace', cfg='GraphTrace.cfg', command='graph')]
PARTS['P23'] = [histories(1500, 25000)]
PARTS['P25'] = [histories(32, 800)]
PARTS['P26'] = [histories(2000, 40000, suite=pages.history, module='PageTrace', cfg='PageTrace.cfg', command='page')]
PARTS['P27'] = [histories(1500, 25000, suite=builder.history, prepare=builder.written)]
