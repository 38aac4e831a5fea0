"""Histories per property.  Every suite is a function (gen-seed, index) -> history."""
import random
import re
import gen
import glang
from gen import Gen, fx, S

NOISE = None            # set by the driver


def G(seed, **o):
    return Gen(seed, NOISE, **o)


def blocks(g, lo, hi):
    k = g.r.randrange(lo, hi + 1)
    if g.scale == 'long':
        # noise is known for so many samples
        k = min(k * g.ch([1, 4, 10, 30]), max(0, (gen.NOISE_LEN // g.o['n'] - g.played) // 2))
    g.played += k
    return [g.block() for _ in range(k)]


def hist(g, i, ops, **k):
    h = {'id': 'h%s' % i, 'n': g.o['n'], 'sr': g.o['sr'], 'ops': ops}
    h.update(k)
    kinds = {c['k'] for o in ops for ch in o.get('prog', ()) for c in ch['nodes']}
    if 'plate' in kinds:
        h.setdefault('tol', 600)
    elif kinds & {'lpf', 'rhpf', 'hh'}:
        # one filter after the other multiplies what the first has lost
        most = max(sum(c['k'] in ('lpf', 'rhpf', 'hh') for ch in o.get('prog', ()) for c in ch['nodes']) for o in ops)
        h.setdefault('tol', 400 if most < 2 else 800)
    elif kinds & {'bd', 'sn'}:
        h.setdefault('tol', 250)
    return h


def with_samples(g, names):
    """load samples first; the pitch of a sampler has to stay a power of two"""
    g.gain = lambda: fx(g.ch([0.5, 1, 2, 1, -1]))
    return [sample_op(g, nm) for nm in names]


def size(r, ns=(4, 8, 8, 16), srs=(16, 16, 64, 256)):
    return dict(n=r.choice(ns), sr=r.choice(srs))


NO_IN = dict(src=dict(input=0))
SIMPLE_PROC = dict(lpfref=0, rhpfref=0, apfref=0, delaymsref=0, panref=0, onepoleref=0)


# ---------------------------------------------------------------- rejected code
BAD_TEXTS = ['o: ', 'o: sin', 'o: sin 440 >>', 'o: sin 440 >> mul', 'o sin 440', ': sin 440', 'o: sin 440 440',
             'o: nosuchnode 1', 'o: sin ~', 'o: sin 440 > mul 1', 'o: lpf 100', 'o: seq', 'o: sin 440 >> mul 0.1 >>\n',
             'O: sin 440', '~: sin 1', 'o: sin 440 @', 'o: envperc 0.1', 'o: adsr 1 2 3',
             'o: imp ~a', 'o: sp 1', 'o: choose', 'o: sin 440\n>> >> mul 1', 'o: mul 1; b sin 2', 'o: sin 1é', '(', '>>',
             'o: sin .5', 'o: noise ~a', 'o: delayn 1.5']
UNSUPPORTED = [dict(k='reverb', raw='reverb 0.1 0.2 0.3 0.4 0.5'), dict(k='expr', raw='expr `x`'),
               dict(k='adc', raw='adc 1'), dict(k='badpsynth', raw='psynth `abc`'),
               dict(k='psamplerevent', raw='psampler "\\s1@0.5"'), dict(k='lpfevent', raw='lpf "100@0.5" 1')]


def bad_text(g, prog):
    """text outside of the language, sometimes an otherwise good program with one bad line"""
    t = g.ch(BAD_TEXTS)
    if g.r.random() < 0.6:
        good = glang.program([{'name': k, 'nodes': v} for k, v in prog.items()])
        t = good + '\n' + t if g.r.random() < 0.5 else t + '\n' + good
        if t.startswith('o: sin 440 >> mul 0.1 >>\n') or 'o: \n' in t or '>>\n' in t:
            t = good + '\no: sin'
    return {'op': 'bad', 'text': t}


def reject(g, prog, old):
    """an update that must be refused: edits that are mostly fine, with one mistake"""
    z = g.r.random()
    if z < 0.15:
        return bad_text(g, prog)
    if z < 0.17:
        return redefines_input(g, prog)
    p = g.mutate(prog) if g.r.random() < 0.8 else g.program()
    p = {k: [dict(c) for c in v] for k, v in p.items()}
    nm = g.ch(sorted(p)) if p and g.r.random() < 0.7 else 'zz'
    cs = p.setdefault(nm, [{'k': 'sig', 'p': {'n': S}}])
    if z < 0.55:
        gone = [x for x in old if x not in p]
        r = g.ch(gone) if gone and g.r.random() < 0.4 else g.ch(['~nope', 'nope', '~nope..', '~zz9', '_z', near(g, p), near(g, p)])
        c = g.ch([{'k': 'mul', 'p': {'r': r}}, {'k': 'add', 'p': {'r': r}}, {'k': 'mix', 'refs': sorted(p)[:1] + [r]},
                  {'k': 'get', 'p': {'r': r}}, {'k': 'saw', 'p': {'r': r}}, {'k': 'balance', 'l': nm, 'r': r},
                  {'k': 'lpf', 'p': {'r': r}, 'q': S}, {'k': 'delayms', 'p': {'r': r}},
                  {'k': 'onepole', 'p': {'r': r}}, {'k': 'pan', 'p': {'r': r}}, {'k': 'rhpf', 'p': {'r': r}, 'q': S},
                  {'k': 'apfmsgain', 'p': {'r': r}, 'g': 0},
                  {'k': 'arrange', 'secs': [{'r': nm, 'n': S}, {'r': r, 'n': S}]},
                  {'k': 'seq', 'steps': [[{'r': '~' + g.ch('uvwz')}]]}])
        if c['k'] in ('get', 'mul') and r.endswith('..'):
            c = {'k': 'mix', 'refs': [r]}
        if g.r.random() < 0.25:
            c = long_list(g, sorted(p), r)
    elif z < 0.85:
        c = {'k': 'sp', 'name': g.ch(['\\nosample', "'s9'", '\\808', '\\s', '\\s11', "'s1'", "'K_'", '\\k_3', '\\S1', "'k_3'", "'K-3'"])}
        if g.r.random() < 0.4:
            pat = [{'name': '\\nosample', 't': 0}]
            if g.o['samples'] and g.r.random() < 0.7:
                pat = [{'name': g.ch(g.o['samples']), 't': k * S // 16} for k in range(g.ch([2, 3, 5, 9]))]
                pat[g.r.randrange(len(pat))]['name'] = '\\nosample'
            c = {'k': 'psampler', 'pat': pat, 'span': S}
    else:
        c = dict(g.ch(UNSUPPORTED))
    cs.insert(g.r.randrange(0, len(cs) + 1), c)
    return g.upd(p)


def near(g, p):
    """a name that is almost, but not, one of a chain"""
    if not p:
        return '~nope'
    k = g.ch(sorted(p))
    new = g.ch([k + '9', k + 'x', k + k[-1], k + '_', k[:-1], k.rstrip('0123456789'), '~' + k, k.lstrip('~'), k[0] + '_' + k[1:]])
    ok = new not in p and new != '~input' and re.fullmatch('(~[a-z]|[ou]|_[a-z])[a-z0-9_]*', new)
    return new if ok else '~nope'


def long_list(g, names, r):
    """a node with many references of which one, anywhere in the list, does not exist"""
    k = g.ch([3, 5, 6, 9, 12])
    bad = g.r.randrange(k)
    z = g.r.random()
    if z < 0.4:
        return {'k': 'mix', 'refs': [r if j == bad else g.ch(names) for j in range(k)]}
    if z < 0.7:
        return {'k': 'arrange', 'secs': [{'r': r.rstrip('.') if j == bad else g.ch(names), 'n': S} for j in range(k)]}
    # a step can only name a one-letter chain
    notes = [{'m': n} for n in (48, 60, 72)] + [{'r': x} for x in names if len(x) == 2 and x[0] == '~']
    steps = [[g.ch(notes) for _ in range(g.ch([1, 1, 2]))] for _ in range(k)]
    g.ch(steps[bad:bad + 1] or steps)[-1] = {'r': '~' + g.ch('uvwz')}
    return {'k': 'seq', 'steps': steps}


def redefines_input(g, prog):
    """a program that is fine except that it names a chain like the audio input"""
    p = dict(g.mutate(prog) if prog else g.program())
    p['~input'] = g.ch([[{'k': 'sig', 'p': {'n': S}}], [{'k': 'mul', 'p': {'n': S}}], [{'k': 'get', 'p': {'r': '~input'}}]])
    return g.upd(p)


def is_rejection(op):
    return True


def edits(seed, i, rej=0.25, n_edits=(4, 9), msgs=0.1, o=None, bl=(0, 3), same=0.05, resets=0.0, bpm=0.05, style=False):
    r = random.Random(seed * 1000003 + i)
    opt = size(r)
    opt['aux'] = r.choice(['', '', 'tg', 'fi', 'mp', 'cq', 'ik'])
    names = ['\\s1', "'K_3'"] if r.random() < 0.25 else []
    opt['samples'] = names
    opt.update(o or {})
    if names:
        opt['src'] = dict(opt.get('src', {}), sp=4, psampler=3)
    g = G(r.random(), **opt)
    ops = with_samples(g, names) if names else []
    prog = g.program()
    st = (lambda: glang.Style(g.r)) if style else (lambda: None)
    ops += [g.upd(prog, st())] + blocks(g, 1, 4)
    old = set(prog)
    for _ in range(g.r.randrange(*n_edits)):
        z = g.r.random()
        if z < rej:
            ops.append(reject(g, prog, old))
        elif z < rej + msgs:
            m = g.msg(prog)
            if m:
                ops.append(m)
        elif z < rej + msgs + same:
            ops.append(g.upd(prog, st()))
        elif z < rej + msgs + same + resets:
            ops.append({'op': 'reset'})
            ops += [sample_op(g, nm) for nm in names]
            prog = {}
        elif z < rej + msgs + same + resets + bpm:
            ops.append({'op': 'bpm', 'v': g.tempo()})
        else:
            old |= set(prog)
            prog = g.mutate(prog) if g.r.random() < 0.9 else g.program()
            ops.append(g.upd(prog, st()))
        ops += blocks(g, *bl)
    ops += blocks(g, 2, 6)
    return hist(g, i, ops, graph=True)


def p01(seed, i):
    return edits(seed, i)


def p02(seed, i):
    return edits(seed, i, rej=0.6, n_edits=(3, 8), msgs=0.15)


STATEFUL = dict(src=dict(sig=0.5, input=0.5, saw=3, squ=3, tri=3, sin=3, imp=3, noise=3, seq=4, envperc=4, adsr=4,
                         choose=1, points=2, arrange=2, speedseq=2, oscref=3),
                proc=dict(delayn=4, delayms=4, apf=3, onepole=3, lpf=2, rhpf=2, lpfpat=1))


def p03(seed, i):
    return edits(seed, i, rej=0.1, msgs=0.3, same=0.2, o=STATEFUL, bl=(1, 3))


def p05(seed, i):
    """renaming between heard and hidden, many heard chains, stereo and mono"""
    r = random.Random(seed * 1000003 + i)
    g = G(r.random(), n=r.choice([4, 8]), sr=16, max_chains=6, src=dict(balance=3, input=2, mix=2),
          proc=dict(pan=4, delayn=3))
    prog = g.program() if g.r.random() < 0.95 else {}
    ops = ([g.upd(prog)] if g.r.random() < 0.95 else []) + blocks(g, 1, 3)
    for _ in range(g.r.randrange(2, 6)):
        z = g.r.random()
        if z < 0.6 and prog:
            # rename a chain that is not referred to between heard and hidden
            used = {x for v in prog.values() for c in v for x in gen.refs(c)}
            free = [k for k in prog if k not in used and (g.rank(k)[0] >= 50)]
            if free:
                k = g.ch(free)
                new = g.ch([x for x in g.HIDDEN + g.HEARD if x not in prog])
                prog = {(new if x == k else x): v for x, v in prog.items()}
                ok = all(x in prog or x == '~input' for v in prog.values() for c in v for x in gen.refs(c))
                cyc = any(g.rank(x) >= g.rank(k2) for k2, v in prog.items() for c in v for x in gen.refs(c) if x != '~input')
                if cyc or not ok:
                    prog = g.program()
        elif z < 0.7:
            prog = {}
        else:
            prog = g.mutate(prog) if prog else g.program()
        ops.append(g.upd(prog))
        ops += blocks(g, 1, 3)
    return hist(g, i, ops)


def shuffled(g, op):
    """the same program with its lines in another order"""
    ch = list(op['prog'])
    g.r.shuffle(ch)
    return {'op': 'update', 'prog': ch, 'text': glang.program(ch)}


def p06(seed, i):
    r = random.Random(seed * 1000003 + i)
    g = G(r.random(), n=r.choice([2, 4, 8]), sr=r.choice([16, 64]), max_chains=8, aux='fmcpqij',
          src=dict(get=5, mix=4, balance=2, arrange=2, oscref=3, seqref=2, input=2, sig=2),
          proc=dict(mulref=5, addref=5, panref=2, delaymsref=1, onepoleref=1, lpfref=1, rhpfref=1, apfref=1, mul=2, add=2))
    prog = g.program()
    ops = []
    for _ in range(g.r.randrange(2, 6)):
        p = {k: [dict(c) for c in v] for k, v in prog.items()}
        z = g.r.random()
        if z < 0.3:
            feedback(g, p)
        elif z < 0.55:
            wildcard(g, p)
        elif z < 0.75:
            self_loop(g, p)
        ops.append(shuffled(g, g.upd(p)))
        ops += blocks(g, 1, 4)
        prog = g.mutate(prog)
    return hist(g, i, ops)


def feedback(g, p):
    """a loop entered at one place: fb reads a heard chain, which adds fb"""
    heard = [k for k in p if not k.startswith('~')]
    used = {x for v in p.values() for c in v for x in gen.refs(c)}
    heard = [k for k in heard if k not in used]
    if not heard:
        return
    k = g.ch(heard)
    # the loop: k ends with "add ~fb", ~fb starts from k
    p[k] = p[k] + [{'k': g.ch(['add', 'add', 'mul']), 'p': {'r': '~fb'}}]
    fb = [{'k': 'get', 'p': {'r': k}}, {'k': 'mul', 'p': {'n': fx(g.ch([0.5, 0.25, -0.5]))}}]
    if g.r.random() < 0.5:
        fb.append(g.ch([{'k': 'delayn', 'p': {'n': g.ch([0, 1, 3])}}, {'k': 'add', 'p': {'n': S}},
                        {'k': 'onepole', 'p': {'n': fx(0.25)}}]))
    p['~fb'] = fb


def self_loop(g, p):
    """a chain that reads its own end, by name or with a pattern of names it matches itself"""
    pre = g.ch(['~x', '~x', '~e', '~a', '~p', '~q'])
    me = pre + 'zz'
    head = [{'k': 'mix', 'refs': [g.ch([me, pre + '..', pre + '..'])] + (['~input'] if g.r.random() < 0.3 else [])}]
    if g.r.random() < 0.4:
        head = [{'k': 'sig', 'p': {'n': fx(g.ch([0.25, 1, -0.5]))}}, {'k': 'add', 'p': {'r': me}}]
    p[me] = head + [{'k': 'mul', 'p': {'n': fx(g.ch([0.5, 0.25, -0.5]))}}] * g.ch([0, 1, 1, 1, 2])
    if g.r.random() < 0.3:
        p[me].append({'k': 'delayn', 'p': {'n': g.ch([1, 3])}})
    p['w'] = [{'k': 'get', 'p': {'r': me}}]


def wildcard(g, p):
    pre = g.ch(['~x', '~xy', '~b', '~a', '~e', '~t1', 'o', 'ou', 'b', '_u', '~in', '~am'])
    pre = pre.rstrip('.') + '..'
    tgt = [k for k in list(p) + ['~input'] if k.startswith(pre[:-2])]
    # notes, milliseconds and cutoffs are too loud to be mixed
    if any(len(k) > 1 and k[0] == '~' and k[1] in 'ijklmc' and k != '~input' for k in tgt):
        return
    p['w'] = [{'k': 'mix', 'refs': [pre] + ([g.ch(sorted(p))] if g.r.random() < 0.3 else [])}]
    if any(k[1:2] in 'ijklmc' and k[0] == '~' and k not in ('~input', '~in..') for k in p['w'][0]['refs']):
        del p['w']


NOPS = ['', ';', ';;', ' ', 'o', 'o,0', 'o,0,0', 'o,x,0,1', 'o,0,x,1', 'o,-1,0,1', 'o,0,-1,1', 'o,0,256,1', 'o,99,0,1',
        'nochain,0,0,1', ',,,', ',0,0,1', 'o;0;0;1', 'o,0.5,0,1', '~,0,0,1', 'o,1e9,0,1', 'o,0,0', 'é,0,0,1',
        'o,18446744073709551616,0,1', 'o,99999999999,0,1']


def spellings(v):
    """other ways to write a number in a message"""
    t = glang.num(v)
    out = [t + ('0' if '.' in t else '.0'), t + 'e0', t + 'E+0', ('%.16e' % (v / S))]
    if v >= 0:
        out.append('+' + t)
    if '.' not in t:
        out.append(t + '.')
    elif t.startswith('0.'):
        out.append(t[1:])
    return out


def p07(seed, i):
    r = random.Random(seed * 1000003 + i)
    opt = size(r)
    names = ['\\s1', "'K_3'"] if r.random() < 0.15 else []
    g = G(r.random(), max_chains=4, aux=r.choice(['', 'f', 'mp', 'cq', 'ik']), samples=names,
          src=dict(sp=4, psampler=2) if names else {}, proc=dict(plate=0.2), **opt)
    ops = with_samples(g, names) if names else []
    prog = g.program()
    ops += [g.upd(prog)] + blocks(g, 1, 2)
    for _ in range(g.r.randrange(5, 12)):
        z = g.r.random()
        if z < 0.5:
            ms = [m for m in (g.msg(prog) for _ in range(g.ch([1, 1, 1, 2, 3] + [8, 20] * g.rich))) if m]
            if not ms:
                continue
            # several messages in one string: one harness call, the model takes them one by one
            sep = g.ch([';', '; ', ' ;\n', ';;'])
            pieces = [m['text'] for m in ms]
            # messages without effect anywhere between them
            for m in range(len(pieces)):
                if ms[m].get('sym') is None and g.r.random() < 0.15:
                    pieces[m] = pieces[m].rsplit(',', 1)[0] + ',' + g.ch(spellings(ms[m]['val']))
            for _ in range(g.ch([0, 0, 1, 2])):
                pieces.insert(g.r.randrange(len(pieces) + 1), g.ch(NOPS))
            for m in range(len(pieces)):
                if pieces[m].count(',') == 3 and g.r.random() < 0.05:
                    pieces[m] += ',' + g.ch(['1', '', 'x', '0,0', '-1'])
            text = sep.join(pieces) + g.ch(['', ';', ' ; '])
            if g.r.random() < 0.3:
                text = text.replace(',', g.ch([', ', ' , ', ',\n']))
            for j, m in enumerate(ms):
                m['text'] = text if j == 0 else ''
            ops += ms
        elif z < 0.7:
            # well-formed messages to nodes and parameters that do not exist
            nm = g.ch(sorted(prog) + ['~nochain'] + [near(g, prog)] * 3)
            node = g.ch([0, 1, 2]) if nm not in prog else len(prog[nm]) + g.ch([0, 1, 3, 60])
            ops.append(g.msg_op(nm, node, g.r.randrange(3), g.val()))
        elif z < 0.8 and prog:
            nm = g.ch(sorted(prog))
            ops.append(g.msg_op(nm, g.r.randrange(len(prog[nm])), g.ch([6, 7, 200, 255]) * 2 % 256, g.val()))
        elif z < 0.9:
            ops.append({'op': 'nop', 'text': g.ch(NOPS)})
            # no number, sent to a node that wants one
            deaf = [(nm, k) for nm in prog for k, c in enumerate(prog[nm]) if c['k'] not in ('eval', 'meta', 'msgsynth', 'psynth')]
            if deaf and g.r.random() < 0.4:
                ops[-1]['text'] = '%s,%d,%d,%s' % (*g.ch(deaf), g.ch([0, 0, 1, 2]), g.ch(
                    ['', '1f', '0x1', '1_0', '1.0.0', '--1', '1e', 'e1', '1/2', '-', '~a', '1e1.5', '1%', '½', '1=>2', "'1'", '`1`']))
        else:
            prog = g.mutate(prog)
            ops.append(g.upd(prog))
        ops += blocks(g, 0, 3)
    ops += blocks(g, 2, 4)
    return hist(g, i, ops)


def sample_op(g, name):
    # frame counts and rates for which durations are exact
    n = g.ch([1, 2, 3, 5, 8, 9, 16, 17] + [33, 64, 65] * g.rich)
    chs = g.ch([1, 1, 2])
    ratio = g.ch([1, 1, 2, 0.5])
    data = [[fx(g.r.randrange(-16, 17) / 16) for _ in range(n)] for _ in range(chs)]
    return {'op': 'sample', 'name': name, 'sr': int(g.sr * ratio), 'data': data}


def p14(seed, i, opt=None):
    r = random.Random(seed * 1000003 + i)
    names = ['\\s1', '\\s-2', "'K_3'"]
    opt = opt or dict(n=r.choice([4, 8, 16]), sr=r.choice([16, 64]))
    g = G(r.random(), **opt, samples=names, max_chains=3,
          src=dict(sp=12, psampler=6, sig=0.5, noise=0.2, points=0.3), proc=dict(mul=2, add=1, pan=1, delayn=1, lpfpat=0))
    g.gain = lambda: fx(g.ch([0.5, 1, 2]))
    ops = []
    load = list(names)
    g.r.shuffle(load)
    late = g.r.random() < 0.2
    if late:
        load, missing = load[:1], load[1:]
    for nm in load:
        ops.append(sample_op(g, nm))
    if g.r.random() < 0.5:
        ops.append({'op': 'bpm', 'v': g.tempo()})
    cur = prog = g.program()
    ops.append(g.upd(prog))
    ops += blocks(g, 2, 5)
    if late:
        for nm in missing:
            ops.append(sample_op(g, nm))
        ops.append(g.upd(prog))
    ops += blocks(g, 2, 6)
    for _ in range(g.r.randrange(0, 4)):
        z = g.r.random()
        if z < 0.3:
            ops.append(sample_op(g, g.ch(names)))
        elif z < 0.5:
            ops.append({'op': 'bpm', 'v': g.tempo()})
        else:
            prog = g.mutate(prog)
            ops.append(g.upd(prog))
        ops += blocks(g, 2, 6)
    return hist(g, i, ops)


def p08(seed, i, opt=None):
    """histories with a reset in the middle, everything before it of every kind"""
    r = random.Random(seed * 1000003 + i)
    opt = opt or size(r)
    names = ['\\s1', '\\s2']
    g = G(r.random(), samples=names, src=dict(sp=1, psampler=1, choose=1, input=2), **opt)
    g.gain = lambda: fx(g.ch([0.5, 1, 2, 1, -1]))
    ops = []

    def phase():
        prog = {}
        for _ in range(g.r.randrange(1, 6)):
            z = g.r.random()
            if z < 0.35:
                prog = g.mutate(prog) if prog else g.program()
                ops.append(g.upd(prog))
            elif z < 0.5:
                ops.append(sample_op(g, g.ch(names)))
            elif z < 0.6:
                ops.append({'op': 'bpm', 'v': g.tempo()})
            elif z < 0.7:
                ops.append({'op': 'seed', 'v': g.ch(gen.SEEDS)})
            elif z < 0.8:
                ops.append(reject(g, prog or g.program(), set(prog)))
            elif prog:
                m = g.msg(prog)
                if m:
                    ops.append(m)
            ops.extend(blocks(g, 0, 3))
    for _ in range(g.ch([1, 1, 2])):
        phase()
        ops.append({'op': 'reset'})
        ops.extend(blocks(g, 0, 2))
    phase()
    ops.extend(blocks(g, 1, 3))
    return hist(g, i, ops, graph=True)


def p04(seed, i):
    """acceptance: programs whose names may or may not resolve, in all engine states"""
    r = random.Random(seed * 1000003 + i)
    names = ['\\s1', '\\s2', "'s3'"]
    g = G(r.random(), n=4, sr=16, samples=names, src=dict(sp=3, psampler=2, get=4, mix=4, arrange=2, balance=2, seqref=2),
          proc=dict(mulref=4, addref=4), max_chains=5)
    g.gain = lambda: fx(g.ch([0.5, 1, 2]))
    ops = []
    prog = {}
    old = set()
    for _ in range(g.r.randrange(4, 10)):
        z = g.r.random()
        if z < 0.15:
            ops.append(sample_op(g, g.ch(names)))
        elif z < 0.18:
            ops.append(redefines_input(g, prog))
        elif z < 0.4:
            ops.append(reject(g, prog or g.program(), old))
        elif z < 0.45:
            ops.append({'op': 'reset'})
            prog = {}
        elif z < 0.7 and prog:
            # remove a chain but not what refers to it: fails unless nothing does
            p = dict(prog)
            nm = g.ch(sorted(p))
            old.add(nm)
            del p[nm]
            if p:
                wild(g, p)
                ops.append(g.upd(p))
        else:
            old |= set(prog)
            prog = g.mutate(prog) if prog and g.r.random() < 0.6 else g.program()
            p = dict(prog)
            wild(g, p)
            ops.append(g.upd(p))
        if g.r.random() < 0.3:
            ops.append(g.block())
    ops.append(g.block())
    return hist(g, i, ops)


def wild(g, p):
    if g.r.random() < 0.3:
        pre = g.ch(['~x..', '~x1..', '~xy..', '~q..', '~in..', 'o..', 'oo..', '_u..', 'x1..', 'n..', '~zz..', '~b..', '~input..'])
        tgt = [k for k in list(p) + ['~input'] if k.startswith(pre[:-2])]
        if not any(len(k) > 1 and k[0] == '~' and k[1] in 'ijklmc' and k != '~input' for k in tgt):
            p['w'] = [{'k': 'mix', 'refs': [pre]}]


def p10(seed, i):
    r = random.Random(seed * 1000003 + i)
    names = ['\\s1']
    sr = r.choice([16, 32, 64, 128])
    g = G(r.random(), n=r.choice([4, 8, 16, 32]), sr=sr, max_chains=4, samples=names, aux='ijk',
          src=dict(seq=8, seqref=6, speedseq=6, arrange=5, psampler=3, points=2, sig=1, saw=0.5, squ=0.5, tri=0.5, sin=0.3,
                   imp=0.5, noise=0.2, input=0.3, envperc=1, adsr=0.5, choose=1, get=1, mix=0.5, balance=0.2),
          proc=dict(mul=1, add=0.5, mulref=1, lpfpat=3, lpf=0.1, rhpf=0.1, apf=0.1, onepole=0.2, delayms=0.2))
    g.gain = lambda: fx(g.ch([0.5, 1, 2]))
    ops = [sample_op(g, '\\s1')]
    if g.r.random() < 0.6:
        ops.append({'op': 'bpm', 'v': g.tempo()})
    prog = g.program()
    ops.append(g.upd(prog))
    ops += blocks(g, 4, 10)
    for _ in range(g.r.randrange(1, 6)):
        z = g.r.random()
        if z < 0.4:
            ops.append({'op': 'bpm', 'v': g.tempo()})
        elif z < 0.75:
            m = g.msg(prog)
            if m:
                ops.append(m)
        else:
            prog = g.mutate(prog)
            ops.append(g.upd(prog))
        ops += blocks(g, 2, 8)
    return hist(g, i, ops)


def nodes_suite(src, proc, ns=(4, 8, 16), srs=(16, 64, 256), max_chains=3, long=(3, 8), msgs=True, gainpow=False, aux=''):
    def f(seed, i):
        r = random.Random(seed * 1000003 + i)
        z = dict.fromkeys(Gen.SRC, 0)
        z.update(src)
        y = dict.fromkeys(Gen.PROC, 0)
        y.update(proc)
        g = G(r.random(), n=r.choice(ns), sr=r.choice(srs), max_chains=max_chains, src=z, proc=y, aux=aux)
        if gainpow:
            g.gain = lambda: fx(g.ch([0.5, 1, 2]))
        prog = g.program()
        ops = [g.upd(prog)] + blocks(g, *long)
        for _ in range(g.r.randrange(0, 5)):
            w = g.r.random()
            if w < 0.6 and msgs:
                m = g.msg(prog)
                if m:
                    ops.append(m)
            elif w < 0.7:
                ops.append({'op': 'sr', 'v': g.ch([16, 64])})
                g.sr = ops[-1]['v']
                g.mixed = True
                # cutoffs belong to a sample rate
                if any(c['k'] in ('lpf', 'rhpf') or nm[:2] == '~c' for nm in prog for c in prog[nm]):
                    prog = g.program()
                    ops.append(g.upd(prog))
            elif w < 0.75:
                ops.append({'op': 'bpm', 'v': g.tempo()})
            elif w < 0.8:
                ops.append(reject(g, prog, set(prog)))
            elif w < 0.84:
                ops.append(g.upd(prog))
            else:
                prog = g.mutate(prog)
                ops.append(g.upd(prog))
            ops += blocks(g, *long)
        return hist(g, i, ops)
    return f


p11 = nodes_suite(dict(saw=2, tri=2, noise=3, imp=3, input=4, seq=1, mix=1, balance=2, get=2, sin=1),
                  dict(delayn=6, delayms=6, delaymsref=4, apf=4, apfref=3, pan=2, mul=0.5), srs=(16, 64, 256, 1024), aux='mp')
p12 = nodes_suite(dict(envperc=6, adsr=6, get=1), dict(mul=1, mulref=1, pan=0.5, add=0.3), srs=(16, 64, 256, 1024), long=(4, 12), aux='tg')
p13 = nodes_suite(dict(sin=4, saw=4, squ=4, tri=4, oscref=6, imp=3, sig=2, noise=3, points=4, choose=1, get=1, input=0.5),
                  dict(mul=3, add=3, mulref=2, addref=2), srs=(16, 64, 256, 1024, 4096, 16384), max_chains=4, aux='ffe')
p20 = nodes_suite(dict(saw=2, noise=2, input=4, balance=5, get=2, mix=2, arrange=1, seq=1, tri=1, sin=1, sig=1, envperc=1, adsr=1),
                  dict(pan=5, panref=4, mul=2, add=2, mulref=2, addref=2, delayn=2, delayms=2, delaymsref=1, apf=1, onepole=1,
                       lpf=1, rhpf=1), max_chains=4, aux='pm')
p21 = nodes_suite(dict(saw=2, noise=4, imp=2, sig=2, input=2, squ=2, seq=1, get=1),
                  dict(onepole=5, onepoleref=4, lpf=5, lpfref=3, lpfpat=3, rhpf=5, rhpfref=3, mul=0.5, pan=0.5), aux='ccq')


def real_rates(seed, i, kinds, long):
    """envelopes and delays at the sample rates of sound cards, driven through the audio input"""
    r = random.Random(seed * 1000003 + i)
    g = G(r.random(), n=r.choice([16, 32, 128]), sr=r.choice([44100, 48000, 22050, 96000]), scale='')
    n, sr = g.o['n'], g.o['sr']

    def secs(hi):
        # away from whole numbers of samples
        while True:
            v = g.r.randrange(0, max(2, hi * S // sr))
            if 0.2 < v * sr / S % 1 < 0.8:
                return v

    def ms(hi):
        while True:
            v = g.r.randrange(1, max(2, hi * S // sr * 1000))
            if 0.2 < v * sr / S / 1000 % 1 < 0.8 and v * sr >= S * 1000:
                return v

    def comp(k):
        t = lambda: secs(g.ch([8, 40, 200]))
        if k == 'envperc':
            return {'k': k, 'a': t(), 'd': t()}
        if k == 'adsr':
            return {'k': k, 'a': t(), 'd': t(), 's': fx(g.ch([0, 0.25, 0.5, 1])), 'rel': t()}
        if k == 'delayms':
            return {'k': k, 'p': {'n': ms(g.ch([4, 40, 150]))}}
        if k == 'apfmsgain':
            return {'k': k, 'p': {'n': ms(g.ch([4, 40]))}, 'g': fx(g.ch([-0.5, 0.25, 0.5]))}
        return {'k': 'delayn', 'p': {'n': g.ch([1, 40, 100, 128, 129])}}

    def prog():
        return {nm: [{'k': 'get', 'p': {'r': '~input'}}, comp(g.ch(kinds))] for nm in g.r.sample(['o', 'b1', '~a'], g.ch([1, 1, 2]))}

    def play():
        k = g.r.randrange(n)
        shape = g.ch([lambda j: S * (j == k), lambda j: S * (j >= k), lambda j: 0, lambda j: fx(g.r.randrange(0, 3) / 2)])
        x = [[shape(j) for j in range(n)]]
        return [{'op': 'block', 'in': x * 2}] + ([{'op': 'block', 'in': [[0] * n] * 2}] if g.r.random() < 0.4 else [])

    ops, p = [], {}
    for _ in range(g.ch([1, 2, 3])):
        p = prog()
        ops.append(g.upd(p))
        for _ in range(g.r.randrange(2, long * 32 // n + 2)):
            ops += play()
            if g.r.random() < 0.2:
                nm = g.ch(sorted(p))
                c = p[nm][1]
                k = c['k']
                if k == 'envperc':
                    ops.append(g.msg_op(nm, 1, g.ch([0, 1]), secs(40)))
                elif k == 'adsr':
                    ops.append(g.msg_op(nm, 1, g.ch([0, 1, 3]), secs(40)))
                elif k in ('delayms', 'apfmsgain'):
                    ops.append(g.msg_op(nm, 1, 0, ms(40)))
    return hist(g, i, ops)


def sometimes(f, other, share=0.06):
    def suite(seed, i):
        return other(seed, i) if random.Random(seed * 7919 + i).random() < share else f(seed, i)
    return suite


def counting(g, k, fed):
    """a node that counts round and round, and remembers nothing else"""
    by = g.ch([2, 3, 5, 8, 15])
    if k == 'eval':
        count = {'op': '%', 'a': {'v': 'phase'}, 'by': by}
    else:
        count = {'op': '%', 'a': {'op': '+', 'a': {'v': 't'}, 'b': {'n': S}}, 'by': by}
    e = {'op': '*', 'a': {'v': 't'}, 'b': {'n': fx(g.ch([0.125, 0.25, -0.125]))}}
    if fed:
        e = {'op': '+', 'a': e, 'b': {'op': '*', 'a': {'v': 'in'}, 'b': {'n': g.gain()}}}
    return dict({'k': k, 'code': [{'to': 't', 'e': count}, {'to': '', 'e': e}]}, **({'n': g.o['n']} if k == 'meta' else {}))


def eternal(seed, i, src, proc=None, far=False):
    """periodic programs left alone for whole periods: tens of thousands to millions of samples"""
    r = random.Random(seed * 1000003 + i)
    z = dict.fromkeys(Gen.SRC, 0)
    z.update(src)
    y = dict.fromkeys(Gen.PROC, 0)
    y.update(proc or dict(mul=2, add=2, pan=1, delayn=1, mulref=1))
    n = r.choice([4, 8, 16])
    names = ['\\s1', '\\s2'] if src.get('sp') or src.get('psampler') else []
    g = G(r.random(), n=n, sr=r.choice([16, 64]), max_chains=3, max_len=3, scale='', src=z, proc=y, samples=names,
          aux=r.choice(['', 't', 'f', 'i']))
    g.imp_freq = lambda: fx(g.ch([0.25, 0.5, 1, 2, 4, 8]) * g.sr / 16)
    g.span = lambda: fx(g.ch([0.25, 0.5, 1, 2]))
    g.stime = lambda: g.secs(3)
    # a frequency that moves would shift the phase from period to period
    g.freqs = lambda env: [{'k': 'sig', 'p': {'n': g.ch([1, 2, 3, 8, 12]) * g.sr * S // 64}}]
    if src.get('eval'):
        g.eval, g.meta = lambda fed: counting(g, 'eval', fed), lambda fed: counting(g, 'meta', fed)
        g.text_msg = lambda nm, k, c: None
    ops = with_samples(g, names)
    if g.r.random() < 0.5:
        ops.append({'op': 'bpm', 'v': g.ch([60, 120, 240, 480, 80, 80, 160])})
    slow = 3 if ops[-1:] and ops[-1].get('v') in (80, 160) else 1
    g.odd = g.odd or slow > 1
    prog = g.program()
    for ch in prog.values():
        for c in ch:
            if c['k'] == 'arrange':
                c['secs'] = c['secs'][:g.ch([1, 2, 4])]
                if len(c['secs']) == 3:
                    c['secs'].pop()
                for s in c['secs']:
                    s['n'] = fx(g.ch([0.5, 1]) if len(c['secs']) == 1 else 0.5)
            elif c['k'] == 'choose':
                c['list'] = c['list'][:1]
    ops.append(g.upd(prog))
    # everything that has an end has ended, and every cycle has been played
    period = (15 if src.get('eval') else slow) * 64 * g.sr
    settle = 40 * g.sr if g.sr == 16 else 20 * g.sr
    ops += [{'op': 'block'} for _ in range(settle // n)]
    for _ in range(g.ch([1, 1, 2])):
        size = g.ch([1 << 24]) if far else g.ch([1 << 12, 1 << 15, 1 << 16, 1 << 16, 100000, 1 << 17])
        ops.append({'op': 'skip', 'blocks': (size // period + g.ch([1, 1, 2])) * period // n})
        ops += [{'op': 'block'} for _ in range(g.sr * g.ch([2, 4]) // n)]
        m = g.msg(prog)
        if m and g.r.random() < 0.4:
            ops += [m] + [{'op': 'block'} for _ in range(2)]
            break
        if g.r.random() < 0.3:
            ops += [{'op': 'bpm', 'v': g.ch([60, 120, 240])}] + [{'op': 'block'} for _ in range(2 * g.sr // n)]
            break
    return hist(g, i, ops)


p11 = sometimes(p11, lambda seed, i: real_rates(seed, i, ['delayms', 'delayms', 'apfmsgain', 'delayn'], 12))
p12 = sometimes(p12, lambda seed, i: real_rates(seed, i, ['envperc', 'adsr'], 12))


def p23(seed, i):
    """instruments: long enough for their envelopes"""
    r = random.Random(seed * 1000003 + i)
    z = dict.fromkeys(Gen.SRC, 0)
    z.update(dict(drum=4, synth=4, psynth=2, msgsynth=2, get=0.7, mix=0.5))
    y = dict.fromkeys(Gen.PROC, 0)
    y.update(dict(mul=2, add=1, pan=1, delayn=1, onepole=0.5, mulref=0.5))
    g = G(r.random(), n=r.choice([32] * 5 + [64] * 5 + [128]), sr=r.choice([1024, 1024, 4096]), max_chains=2, scale=r.choice([''] * 9 + ['rich']), src=z, proc=y, aux=r.choice(['', 't']))
    g.imp_freq = lambda: fx(g.sr / g.ch([64, 128, 256, 512]))
    g.gain = lambda: fx(g.ch([0.5, 1, 2, -1]))
    prog = g.program()
    n = g.o['n']
    total = {32: 24, 64: 14, 128: 9}[n]
    parts = g.r.randrange(1, 5)
    ops = [{'op': 'bpm', 'v': g.ch([240, 480])}] if g.r.random() < 0.7 else []
    ops.append(g.upd(prog))
    for _ in range(parts):
        ops += [{'op': 'block'} for _ in range(g.r.randrange(1, 2 * total // parts))]
        for _ in range(g.ch([1, 1, 2, 3])):
            m = g.msg(prog) if g.r.random() < 0.75 else None
            players = [(nm, k) for nm in prog for k, c in enumerate(prog[nm]) if c['k'] == 'msgsynth']
            if players and g.r.random() < 0.6:
                # several notes soon, together or one after the other
                nm, k = g.ch(players)
                now = n * sum(o['op'] == 'block' for o in ops)
                base = now + g.r.randrange(-2, 2 * n)
                for _ in range(g.r.randrange(2, 6)):
                    at = fx((max(0, base + g.ch([0, 0, 1, 5, 17, 40])) + 0.5) / g.sr)
                    note = g.pitch()
                    ops.append({'op': 'msg', 'chain': nm, 'node': k, 'pos': 3, 'val': 0, 'sym': {'at': at, 'note': note},
                                'text': '%s,%d,3,%s=>%d' % (nm, k, glang.num(at), note)})
            elif m:
                ops.append(m)
            elif g.r.random() < 0.2:
                ops.append({'op': 'bpm', 'v': g.ch([120, 240, 480])})
            elif g.r.random() < 0.4:
                prog = g.mutate(prog)
                ops.append(g.upd(prog))
    ops += [{'op': 'block'} for _ in range(4)]
    return hist(g, i, ops)


p24 = nodes_suite(dict(eval=4, meta=4, input=3, noise=2, saw=1, sin=1, imp=1, sig=1, get=0.5),
                  dict(eval=6, meta=5, mul=1, add=1, mulref=1, delayn=0.5, pan=0.5), max_chains=3)


def p25(seed, i):
    """the reverb, once around its loop and beyond"""
    r = random.Random(seed * 1000003 + i)
    n = r.choice([128, 128, 64])
    g = G(r.random(), n=n, sr=r.choice([1024, 16384]), scale='')
    # every third history sees the loop closed, with a level that shows its gains
    far = i % 3 == 0
    mix = lambda: fx(g.ch([0.5, 0.75, 1] if far else [0, 0.125, 0.25, 0.5, 0.75, 1, 1]))
    src = g.ch([[], [], [{'k': 'mul', 'p': {'n': fx(g.ch([0.5, -1, 2]))}}], [{'k': 'delayn', 'p': {'n': 3}}],
                [{'k': 'pan', 'p': {'n': fx(0.5)}}]])
    prog = {'o': [{'k': 'get', 'p': {'r': '~input'}}] + src + [{'k': 'plate', 'p': {'n': mix()}}]}
    burst = lambda: [[fx(g.r.randrange(-8, 9) / 8) for _ in range(n)] for _ in range(g.ch([1, 2]))]
    # silence afterwards, or a step whose level shows every gain of the loop
    level = fx(g.ch([4, -2] if far else [0, 0, 4, -2]))
    zero = [[level] * n, [level] * n]
    pulse = [[S * (k == 5) for k in range(n)]] * 2
    ops = [g.upd(prog)]
    for _ in range(g.ch([1, 1, 2, 4])):
        ops.append({'op': 'block', 'in': g.ch([burst(), burst(), pulse])})
    ops.append({'op': 'block', 'in': zero})
    for b in range((34000 if far else g.ch([6000, 16000, 28500])) // n):
        z = g.r.random()
        if z < 0.01:
            ops.append(g.msg_op('o', len(prog['o']) - 1, g.ch([0, 0, 0, 1]), g.ch([mix(), mix(), fx(-0.25), fx(1.25)])))
        elif z < 0.015:
            prog = dict(prog, **{g.ch(['b1', '~x1']): [{'k': 'sin', 'p': {'n': g.freq()}}, {'k': 'mul', 'p': {'n': fx(0.25)}}]})
            ops.append(g.upd(prog))
        elif z < 0.03:
            ops += [{'op': 'block', 'in': burst()}, {'op': 'block', 'in': zero}]
        ops.append({'op': 'block'})
    return hist(g, i, ops, tol=600)


def p19(seed, i):
    h = edits(seed, i, rej=0.35, n_edits=(10, 25), msgs=0.08, resets=0.03, bl=(0, 1), o=dict(n=4, sr=16, max_chains=6))
    return h


def over_and_over(seed, i):
    """the same edits, messages and blocks many times over"""
    r = random.Random(seed * 1000003 + i)
    names = ['\\s1', '\\s2'] if r.random() < 0.3 else []
    src = dict(msgsynth=1, psynth=1, drum=1, synth=1, eval=1, meta=1, input=1)
    if names:
        src.update(sp=4, psampler=3)
    g = G(r.random(), n=r.choice([4, 8, 16]), sr=r.choice([16, 64]), max_chains=5, samples=names, aux=r.choice(['', 'tg', 'fi', 'mp']),
          src=src, proc=dict(eval=1, meta=1))
    ops = [sample_op(g, nm) for nm in names]
    prog = first = g.program()
    ops += [g.upd(prog)] + blocks(g, 1, 2)
    turn = blocks(g, 1, 3)
    for _ in range(g.r.randrange(1, 6)):
        z = g.r.random()
        if z < 0.3:
            turn.append(reject(g, prog, set(prog)))
        elif z < 0.5:
            m = g.msg(prog)
            # notes for a chain that is not heard wait forever
            if m and not ('=>' in m['text'] and '~' in m['text']):
                turn.append(m)
        elif z < 0.6:
            turn.append({'op': 'bpm', 'v': g.tempo()})
        elif z < 0.9:
            prog = g.mutate(prog) if g.r.random() < 0.9 else g.program()
            turn.append(g.upd(prog))
        turn += blocks(g, 0, 2)
    turn += [g.upd(first)] + blocks(g, 0, 2)
    ops.append({'op': 'again', 'ops': turn, 'times': 600})
    return hist(g, i, ops, graph=True)


def p16(seed, i):
    """the same histories, every text in another layout and spelling"""
    return edits(seed, i, rej=0.0, n_edits=(2, 5), style=True, same=0.25, bl=(1, 2), o=dict(n=4, sr=16, max_chains=5))


def p09(seed, i):
    """one history for several block sizes; operations between units that all sizes divide"""
    r = random.Random(seed * 1000003 + i)
    unit = r.choice([8, 16, 16, 32, 64, 128])
    pool = [x for x in (2, 4, 8, 16, 32, 64, 128) if x <= unit]
    sizes = r.sample(pool, min(len(pool), 3))
    if unit not in sizes:
        sizes[0] = unit
    r.shuffle(sizes)
    names = ['\\s1', "'K_3'"]
    g = G(r.random(), n=r.choice(sizes), sr=r.choice([16, 64, 256]), samples=names,
          src=dict(choose=0, sp=1, psampler=1, arrange=2, points=2, meta=0), proc=dict(lpfref=0, rhpfref=0, meta=0))
    # per block: a modulated cutoff is read once, a random choice is made once
    g.choose = lambda xs: {'k': 'sig', 'p': {'n': fx(g.ch(xs))}}
    ops = [sample_op(g, nm) for nm in names]
    prog = g.program()
    ops.append(g.upd(prog))
    live = g.ch([0, 0, 1, 2])

    def play():
        b = {'op': 'play'}
        if live:            # without new input the last block of it is repeated, so all blocks have it or none
            b['in'] = [[fx(g.r.randrange(-8, 9) / 8) for _ in range(unit)] for _ in range(live)]
        return b

    budget = max(2, 160 // unit)
    for _ in range(g.r.randrange(2, 6)):
        ops += [play() for _ in range(g.r.randrange(1, budget + 1))]
        z = g.r.random()
        if z < 0.25:
            ops.append({'op': 'bpm', 'v': g.tempo()})
        elif z < 0.5:
            m = g.msg(prog)
            if m:
                ops.append(m)
        elif z < 0.6:
            ops.append(reject(g, prog, set(prog)))
            if ops[-1]['op'] == 'bad':
                ops.pop()
        else:
            prog = g.mutate(prog)
            ops.append(g.upd(prog))
    ops += [play() for _ in range(g.r.randrange(1, budget + 1))]
    h = hist(g, i, ops, unit=unit, sizes=sizes)
    return h


def p18(seed, i):
    """through the browser entry points: blocks of 128, asked for whole or in part, long error messages"""
    r = random.Random(seed * 1000033 + i)
    z = r.random()
    opt = dict(n=128, sr=r.choice([64, 256]), scale='')
    if z < 0.6:
        h = edits(seed + 77, i, rej=r.choice([0.2, 0.5, 0.8]), n_edits=(1, 5), msgs=0.15, resets=0.05, bpm=0.05, bl=(0, 1),
                  o=dict(opt, max_chains=3))
    else:
        h = p08(seed, i, opt) if z < 0.8 else p14(seed, i, opt)
    ops, left = [{'op': 'sr', 'v': h['sr']}], r.choice([2, 3, 4, 5])
    for k, o in enumerate(h['ops']):
        if o['op'] == 'block':
            if left == 0 or k < len(h['ops']) - 1 and r.random() < 0.3:
                continue
            left -= 1
            o = {'op': 'block', 'size': r.choice([256, 256, 256, 128, 64, 2, 0])}
        if r.random() < 0.05:
            ops.append(r.choice([{'op': 'live', 'v': r.choice([0, 1])}, {'op': 'amp', 'v': r.choice([0, 1])},
                                 {'op': 'nop', 'text': r.choice(['', ';', 'zzz,0,0,1'])}]))
        if o['op'] == 'seed' and o['v'] < 1000000 and r.random() < 0.4:
            o = dict(o, half=1)
        ops.append(o)
    for o in ops:
        if o['op'] == 'update' and r.random() < 0.25:
            # an unknown name so long that the message does not fit
            if r.random() < 0.5:
                c = {'k': 'mix', 'refs': ['~' + r.choice('xyz') * r.choice([100, 230, 253, 254, 300])]}
            else:
                c = {'k': 'sp', 'name': '\\x' + r.choice('xyz') * r.choice([100, 226, 228, 229, 230, 300])}
            o['prog'] = o['prog'] + [{'name': 'zlong', 'nodes': [c]}]
            o['text'] = glang.program(o['prog'])
            break
    if r.random() < 0.15:
        # a mistake far to the right or far down
        ops.insert(r.randrange(1, len(ops) + 1), {'op': 'bad', 'text': r.choice([
            'o: ' + ' >> '.join(['mul 0.5'] * r.choice([11, 13, 120])) + ' >> @', 'o: sin 440' + ' ' * r.choice([90, 990, 2000]) + '@',
            '// c\n' * r.choice([9, 99, 400]) + 'o sin 1', '\n' * r.choice([10, 100, 1000]) + 'o: sin 1 >>'])})
    if r.random() < 0.1:
        # random choices follow the seed
        prog = [{'name': 'o', 'nodes': [{'k': 'choose', 'list': [1, 2, 3, 5, 7, 11, 13]}]}]
        ops.append({'op': 'seed', 'v': r.choice(gen.SEEDS), **({'half': 1} if r.random() < 0.5 else {})})
        ops.append({'op': 'update', 'prog': prog, 'text': glang.program(prog)})
        ops += [{'op': 'block', 'size': 256}] * 3
    h['ops'] = ops
    h.pop('graph', None)
    return h


# what is left alone for a long time
LONG = {
    'P01': (dict(seq=2, saw=2, tri=2, imp=2, envperc=1, adsr=1, arrange=1, points=1, get=1, mix=1, input=1), None),
    'P10': (dict(seq=4, speedseq=3, seqref=2, arrange=4, get=1, mix=1, imp=1, saw=1), None),
    'P11': (dict(saw=2, squ=2, imp=3, input=1, seq=2, get=1), dict(delayn=4, delayms=4, delaymsref=2, mul=1, pan=1)),
    'P12': (dict(envperc=4, adsr=4, get=1, mix=1), dict(mul=1, mulref=1, pan=1, delayn=1)),
    'P13': (dict(saw=2, squ=2, tri=2, sin=2, oscref=2, imp=3, points=3, sig=1, get=1), None),
    'P14': (dict(sp=4, psampler=4, get=1, mix=1), None),
    'P24': (dict(eval=4, meta=2, saw=1, get=1), dict(eval=4, meta=2, mul=1, pan=1)),
}


def left_alone(pid):
    src, proc = LONG[pid]
    return lambda seed, i: eternal(seed, i, src, proc, far=i % 12 == 5 and pid != 'P24')


SUITES = dict(P01=p01, P02=p02, P03=p03, P04=p04, P05=p05, P06=p06, P07=p07, P08=p08, P09=p09, P10=p10, P11=p11, P12=p12, P13=p13,
              P14=p14, P16=p16, P18=p18, P19=p19, P20=p20, P21=p21, P23=p23, P24=p24, P25=p25)
