"""Programs written with the chain functions of the npm package: the calls for a component of a program."""
import json
import os
import random
import subprocess

import core
import glang
import suites
from gen import Gen, S, fx
from suites import G, blocks, hist

# calls that add nothing: an argument that is neither a number nor a reference
NOTHING = [['mul', 'abc'], ['add', 'x y'], ['delayms', 'zz'], ['delayn', 'q'], ['hpf', 100, 'q'], ['plate', '~a'], ['bd', 'a'], ['sn', '~a'],
           ['hh', 'b'], ['sawsynth', 0.1, 'b'], ['squsynth', 'a', 0.1], ['trisynth', '~a', 0.1], ['hpf', 'a', 1]]


def call(c, r):
    """the function and arguments for a component; None when the package has none"""
    k = c['k']
    # numbers as numbers or as text
    n = lambda v: r.choice([v / S if v % S else v // S, glang.num(v)])
    arg = lambda p: p['r'] if 'r' in p else n(p['n'])
    if 'p' in c and 'r' in c['p'] and not c['p']['r'].startswith('~'):
        return None
    rest = lambda: glang.comp(c).split(' ', 1)[1]
    if k in ('sin', 'saw', 'tri', 'squ', 'imp', 'speed', 'sig', 'mul', 'add', 'delayms', 'plate', 'bd', 'sn', 'hh'):
        return [k, arg(c['p'])]
    if k == 'noise':
        return [k, c['seed']]
    if k == 'delayn':
        return [k, r.choice([c['p']['n'], str(c['p']['n']), c['p']['n'] + 0.5])]
    if k in ('seq', 'psampler', 'mix'):
        return [k, rest()]
    if k == 'psynth':
        return [k, rest().split('`')[1], n(c['span'])]
    if k in ('lpf', 'rhpf'):
        if 'pat' in c:
            return None if k == 'rhpf' else [k, rest().rsplit(' ', 1)[0], n(c['q'])]
        return ['lpf' if k == 'lpf' else 'hpf', arg(c['p']), n(c['q'])]
    if k in ('envperc', 'sawsynth', 'squsynth', 'trisynth'):
        return [k, n(c['a']), n(c['d'])]
    if k == 'adsr':
        return [k] + [n(c[x]) for x in ('a', 'd', 's', 'rel')]
    if k == 'sp' and c['name'].startswith('\\'):
        return [k, c['name'][1:]]
    return None


FIRST = {'sin', 'saw', 'tri', 'squ', 'imp', 'noise', 'speed', 'seq', 'psynth', 'psampler', 'sig', 'mix'}


def calls(nodes, r):
    out = []
    for i, c in enumerate(nodes):
        x = call(c, r)
        if x is None or (c['k'] in FIRST) != (i == 0) and not (c['k'] == 'seq' and i > 0):
            return None
        out.append(x)
        if r.random() < 0.05:
            out.append(r.choice(NOTHING))
    return out


def history(seed, i):
    r = random.Random(seed * 1000003 + i)
    z = dict.fromkeys(Gen.SRC, 0)
    z.update(dict(sin=2, saw=2, squ=2, tri=2, sig=2, imp=2, noise=2, seq=3, mix=2, envperc=2, adsr=2, oscref=3, seqref=1, speedseq=2,
                  sp=2, psampler=2, drum=1, synth=1, psynth=1))
    y = dict.fromkeys(Gen.PROC, 0)
    y.update(dict(mul=3, add=3, mulref=3, addref=3, delayn=2, delayms=2, delaymsref=2, lpf=2, lpfref=2, lpfpat=2, rhpf=2, rhpfref=2))
    g = G(r.random(), n=8, sr=r.choice([64, 256]), max_chains=4, src=z, proc=y, aux=r.choice(['f', 'm', 'c', 'ik']), samples=['\\s1', '\\s2'])
    g.gain = lambda: int(S * g.ch([0.5, 1, 2, 0.5, 1, 2, -1, 0]))
    ops = [suites.sample_op(g, s) for s in ('\\s1', '\\s2')]
    tail = r.choice(['', '', '', '_01', 'x007', '_left', '00', '_'])
    prog = {}
    for _ in range(g.r.randrange(1, 5)):
        for _ in range(20):
            p = g.mutate(prog) if prog else g.program()
            if g.r.random() < 0.01 and p:
                nm = g.ch([x for x in p if x[0] != '~'] or list(p))
                p = dict(p, **{nm: p[nm] + [{'k': 'plate', 'p': {'n': fx(g.ch([0, 0.25, 0.5]))}}]})
            built = {nm: calls(p[nm], g.r) for nm in p}
            if all(built.values()):
                prog = p
                # chains that nothing refers to may have any name
                as_ = {nm: nm + tail if nm[0] != '~' else nm for nm in p}
                op = g.upd({as_[nm]: p[nm] for nm in p})
                op['build'] = [{'name': as_[nm], 'calls': built[nm]} for nm in p]
                ops.append(op)
                break
        ops += blocks(g, 1, 4)
    wet = any(c['k'] == 'plate' for o in ops for ch in o.get('prog', ()) for c in ch['nodes'])
    return hist(g, i, ops, **({'tol': 600} if wet else {}))


def written(hs, wd, tag):
    """fills in the texts that the package makes of the calls"""
    todo = [{'id': h['id'], 'page': 'npm-port', 'sr': 44100, 'ops': [{'op': 'build', 'chains': o['build']} for o in h['ops'] if 'build' in o]}
            for h in hs]
    recs = core.run_pages(todo, wd, tag)
    for h in hs:
        evs = [e for e in recs[h['id']]['ev'] if e['op'] == 'build']
        for o in h['ops']:
            if 'build' not in o:
                continue
            e = evs.pop(0) if evs else {}
            ts = [bytes(c['text']).decode() for c in e.get('calls', []) if c['c'] == 'update']
            o['text'] = ts[0] if len(ts) == 1 else '?? ' + e.get('panic', 'nothing was run')
            del o['build']
