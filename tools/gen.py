"""Random histories for the real engine: programs, edits of them, messages, settings, blocks.

Chains are typed by name, so that every program keeps away from inputs on which rounding decides
(a comparison or wrap-around of values that 32-bit floats and the model's fixed point do not both
represent exactly):
  ~t*  triggers: 0 or powers of two             ~g*  gates: exactly zero or positive
  ~e*  exact values                             ~f*  frequencies, exact
  ~m*  milliseconds, exact                      ~c*  cutoff frequencies, exact
  ~p*  pan positions, exact                     ~q*  one-pole rates, exact
  ~[i-l]  (one letter) note numbers             all others: any signal
"""
import copy
import random
import struct
import glang
from glang import S

SEEDS = [1, 2, 7, 42, 300, 70001]
NOISE_LEN = 4096


def fx(x):
    v = x * S
    assert v == int(v), x
    return int(v)


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


class Gen:
    def __init__(self, seed, noise, **o):
        self.r = random.Random(seed)
        self.noise = noise
        self.o = dict(n=8, sr=16, bpms=[120], max_chains=4, max_len=4, blocks=(4, 10), src={}, proc={},
                      samples=[], refs=True, edits=True, aux='', scale=None)
        self.o.update(o)
        # now and then more of everything: chains, nodes in a chain, blocks, letters in a name, parameters of a node
        self.scale = self.o['scale']
        if self.scale is None:
            self.scale = self.r.choices(['', 'wide', 'deep', 'long', 'names', 'rich'], [86, 2, 2, 2, 2, 6])[0]
        if self.scale == 'wide':
            self.o['max_chains'] = 20
        if self.scale == 'deep':
            self.o['max_len'] = 14
        if self.scale in ('wide', 'names'):
            self.HIDDEN = self.HIDDEN + ['~zz_top_of_the_world_%d' % k for k in range(4)] + ['~' + 'x' * k for k in (2, 17, 33, 70)]
            self.HEARD = self.HEARD + ['o_%d' % k for k in range(8)] + ['u_long_name_of_a_chain_%d' % k for k in (0, 1, 22)] + \
                ['_' + 'z' * k for k in (9, 40)]
        self.rich = self.scale == 'rich'
        self.odd = self.r.random() < 0.25       # bars of other lengths than powers of two
        self.sr = self.o['sr']
        self.seqs = {}
        self.played = 0
        self.loaded = {}
        self.mixed = False          # nodes of several sample rates may be running

    # ---- values
    def ch(self, xs):
        return self.r.choice(list(xs))

    def wch(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def val(self):
        return fx(self.ch([-2, -1.5, -1, -0.75, -0.5, -0.25, -0.125, 0, 0.125, 0.25, 0.5, 0.75, 1, 1.25, 1.5, 2, 3]))

    def gain(self):
        return fx(self.ch([-1, -0.75, -0.5, -0.25, 0, 0.125, 0.25, 0.5, 0.625, 0.75, 1, 1, 1.25, 1.5, 2]))

    def freq(self):
        # in units of sr/64
        k = self.ch([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 31])
        if self.r.random() < 0.06:
            # backwards, or more than a turn on every sample
            k = self.ch([-1, -3, -8, -20] + ([70, 96, 131, -70, -150] if self.sr <= 4096 else []))
        return k * self.sr * S // 64

    def secs(self, hi=20):
        return fx((self.r.randrange(0, hi) + 0.5) / self.sr)

    def ms(self, hi=None):
        if hi is None:
            hi = self.ch([3, 12, 40] + [150] * self.rich)
        # (k + 1/2) samples
        return fx((2 * self.r.randrange(0, hi) + 1) * 500 / self.sr)

    def stime(self):
        return self.secs(self.ch([1, 3, 8, 24]))

    # ---- sequences
    def seq_steps(self, notes, refs=(), maxsteps=6):
        for _ in range(50):
            pow2 = self.ch([1, 2, 2, 4, 8])
            n = self.ch([pow2, self.r.randrange(1, maxsteps + 1)])
            if self.rich:
                n = self.ch([n, 16, self.r.randrange(8, 25)])
            steps = []
            for _ in range(n):
                m = self.ch([1, 1, 1, 2, 2, 3, 4] + [5, 6, 8, 9, 12] * self.rich)
                row = []
                for _ in range(m):
                    z = self.r.random()
                    if z < 0.35:
                        row.append({'x': 1})
                    elif refs and z < 0.6:
                        row.append({'r': self.ch(refs)})
                    else:
                        row.append({'m': self.ch(notes)})
                steps.append(row)
            key = self.seq_key(steps)
            if not self.seq_sure(steps):
                continue
            if self.seqs.setdefault(key, steps) == steps:
                return steps
        return [[{'m': 60}]]

    BARS = [m * 2 ** k for m in (1, 3, 5, 15) for k in range(20)]

    def tempo(self):
        v = self.ch([30, 60, 120, 240, 480])
        # a beat lasts an exact number of seconds
        return self.ch([v, 40, 48, 64, 80, 96, 160, 192, 320]) if self.odd else v

    def seq_sure(self, steps):
        """rounding does not decide on which sample a step falls"""
        n = len(steps)
        for i, row in enumerate(steps):
            for j in range(len(row)):
                t = f32(f32(f32(j / len(row)) + i) / n)
                if any(int(t * bar) != bar * (i * len(row) + j) // (n * len(row)) for bar in self.BARS[:None if self.odd else 20]):
                    return False
        return True

    @staticmethod
    def seq_key(steps):
        ev = []
        for i, row in enumerate(steps):
            for j, x in enumerate(row):
                if 'x' not in x:
                    ev.append((round((i + j / len(row)) / len(steps), 5), tuple(sorted(x.items()))))
        return tuple(ev)

    # ---- typed chains: list of components
    def chain(self, name, prog):
        t = name[1] if name.startswith('~') else 'A'
        f = {'t': self.trig, 'g': self.gate, 'e': self.exact, 'f': self.freqs, 'm': self.msecs, 'c': self.cutoffs,
             'p': self.pans, 'q': self.rates}.get(t)
        if len(name) == 2 and t in 'ijkl':
            f = self.notes
        return (f or self.signal)(self.lower(name, prog))

    RANK = 'tgefmcpqijkl'

    def rank(self, name):
        """position in the order of references"""
        if not name.startswith('~'):
            return (100, name)
        t = name[1]
        return (self.RANK.index(t) if t in self.RANK else 50, name)

    def lower(self, name, prog):
        """chains that may be referred to from `name` without making a cycle"""
        return [x for x in prog if self.rank(x) < self.rank(name)]

    def of(self, names, t):
        return [x for x in names if x.startswith('~') and x[1] == t and (t not in 'ijkl' or len(x) == 2)]

    def trig(self, env):
        k = self.r.randrange(5)
        ts = self.of(env, 't')
        if k == 0 and ts and self.o['refs']:
            c = [{'k': 'get', 'p': {'r': self.ch(ts)}}]
        elif k <= 2:
            c = [{'k': 'imp', 'p': {'n': self.imp_freq()}}]
        elif k == 3:
            c = [self.speed(), self.seq_oct()] if self.r.random() < 0.4 else [self.seq_oct()]
        else:
            c = [self.seq_oct()]
        if self.r.random() < 0.3:
            c.append({'k': 'mul', 'p': {'n': fx(self.ch([0.5, 1, 2] if self.o['samples'] else [0.5, 1, 2, 0.0625, 1 / 128]))}})
        return c

    def imp_freq(self):
        return fx(self.ch([0.25, 0.5, 0.75, 1, 1.25, 1.5, 2, 3, 4, 5, 8] + [16] * self.rich) * self.sr / 16)

    def speed(self):
        return {'k': 'speed', 'p': {'n': fx(self.ch([0.5, 1, 2, 4]))}}

    def seq_oct(self, env=()):
        return {'k': 'seq', 'steps': self.seq_steps([48, 60, 72])}

    def gate(self, env):
        k = self.r.randrange(3)
        if k == 0:
            return [{'k': 'squ', 'p': {'n': self.freq()}}, {'k': 'add', 'p': {'n': S}}]
        if k == 1:
            return self.signed() if self.r.random() < 0.4 else self.trig(env)
        return [{'k': 'sig', 'p': {'n': fx(self.ch([0, 1, 0.5, 0.0625]))}}]

    def signed(self):
        """on, off and below zero"""
        return [self.seq_oct(), {'k': 'add', 'p': {'n': fx(self.ch([-1, -1, -2]))}}] + \
            ([{'k': 'mul', 'p': {'n': -S}}] if self.r.random() < 0.3 else [])

    def exact(self, env):
        k = self.r.randrange(6)
        if k < 4:
            c = [{'k': self.ch(['saw', 'squ', 'tri', 'sig']), 'p': {'n': self.freq()}}]
            if c[0]['k'] == 'sig':
                c[0]['p']['n'] = self.val()
        else:
            c = self.trig(env)
        if self.r.random() < 0.4:
            c.append({'k': 'mul', 'p': {'n': fx(self.ch([-1, 0.5, 2, 1]))}})
        if self.r.random() < 0.3:
            c.append({'k': 'add', 'p': {'n': self.val()}})
        return c

    def lfo(self, lo, hi):
        """an exact signal between lo and hi (dyadic)"""
        mid, amp = (lo + hi) / 2, (hi - lo) / 2
        k = self.ch(['sig', 'sig', 'saw', 'squ', 'tri'])
        if k == 'sig':
            return [{'k': 'sig', 'p': {'n': fx(self.ch([lo, mid, hi]))}}]
        return [{'k': k, 'p': {'n': self.freq()}}, {'k': 'mul', 'p': {'n': fx(amp)}}, {'k': 'add', 'p': {'n': fx(mid)}}]

    def freqs(self, env):
        u = self.sr / 16
        a = self.ch([(0.5, 1.5), (1, 3), (0, 2), (2, 4), (0.5, 4.5), (-1, 1), (-3, 1), (0, 1 / 64)])
        return self.lfo(a[0] * u, a[1] * u) if a[1] * u <= 64 else self.lfo(8, 24)

    def msecs(self, env):
        return self.lfo(*self.ch([(0, 16), (8, 40), (1, 5), (16, 60)]))

    def cutoffs(self, env):
        u = self.sr / 16
        hi = min(6 * u, 56)
        return self.lfo(max(1, hi / 4) if hi / 4 == int(hi / 4) else hi / 2, hi)

    def pans(self, env):
        return self.lfo(*self.ch([(-1, 1), (-0.5, 0.5), (0, 1), (-2, 2)]))

    def rates(self, env):
        return self.lfo(*self.ch([(0.0625, 0.5), (0.125, 0.25)]))

    def notes(self, env):
        z = self.r.random()
        if z < 0.4:
            return [{'k': 'sig', 'p': {'n': fx(self.ch([48, 60, 36, 0, 55]))}}]
        if z < 0.7:
            # another note on every sample
            return [{'k': self.ch(['saw', 'saw', 'squ']), 'p': {'n': self.freq()}}, {'k': 'mul', 'p': {'n': fx(self.ch([-32, 32]))}},
                    {'k': 'add', 'p': {'n': fx(31)}}]
        return [self.choose([36, 38, 40, 41, 43, 48, 50, 55, 60, 62])]

    def choose(self, xs):
        n = self.ch([1, 2, 3, 4, 4, 5, 7, 8, 11] + [8, 16] * self.rich)
        return {'k': 'choose', 'list': self.r.sample(xs, n) if n <= len(xs) else [self.ch(xs) for _ in range(n)]}

    SRC = dict(sig=3, saw=2, squ=2, tri=2, sin=2, imp=2, noise=1, seq=2, choose=0.5, get=2, mix=1, balance=1,
               arrange=1, envperc=2, adsr=2, oscref=2, seqref=1, speedseq=1, input=1, points=1, sp=0, psampler=0,
               psynth=0.3, msgsynth=0.3, drum=0.5, synth=0.5, eval=0.4, meta=0.2)
    PROC = dict(mul=4, add=3, mulref=2, addref=2, pan=1, panref=0.7, delayn=2, delayms=1.5, delaymsref=0.7,
                apf=1, apfref=0.5, onepole=1.5, onepoleref=0.5, lpf=1, lpfref=0.5, lpfpat=0.5, rhpf=1, rhpfref=0.5, eval=0.4,
                meta=0.2, plate=0.05)

    def source(self, env):
        w = dict(self.SRC)
        w.update(self.o['src'])
        refs = [x for x in env if len(x) == 1 or x[1] not in 'ijklmc']
        big = [x for x in refs if self.rank(x)[0] >= 50]
        if not self.o['refs'] or not refs:
            for k in ('get', 'mix', 'balance', 'arrange'):
                w[k] = 0
        for k, t in (('oscref', 'f'),):
            if not self.of(env, t):
                w[k] = 0
        if not sum(len(self.of(env, t)) for t in 'ijkl'):
            w['seqref'] = 0
        if not self.o['samples']:
            w['sp'] = w['psampler'] = 0
        k = self.wch(w)
        n = lambda v: {'n': v}
        if k in ('saw', 'squ', 'tri', 'sin'):
            return [{'k': k, 'p': n(self.freq())}]
        if k == 'sig':
            return [{'k': 'sig', 'p': n(self.val())}]
        if k == 'imp':
            return [{'k': 'imp', 'p': n(self.imp_freq())}]
        if k == 'noise':
            return [{'k': 'noise', 'seed': self.ch(SEEDS)}]
        if k == 'choose':
            return [self.choose([0, 1, 2, 3, 5, 6, 7, 9, 10, 12])]
        if k == 'seq':
            return [{'k': 'seq', 'steps': self.seq_steps([36, 48, 55, 60, 63, 67, 72, 84, 0, 12, 96])}]
        if k == 'speedseq':
            return [self.speed(), {'k': 'seq', 'steps': self.seq_steps([48, 60, 64, 72])}]
        if k == 'seqref':
            rs = [x for t in 'ijkl' for x in self.of(env, t)]
            c = [{'k': 'seq', 'steps': self.seq_steps([48, 60, 72], rs)}]
            return ([self.speed()] if self.r.random() < 0.3 else []) + c
        if k == 'get':
            return [{'k': 'get', 'p': {'r': self.ch(refs + big + ['~input'])}}]
        if k == 'input':
            return [{'k': 'get', 'p': {'r': '~input'}}]
        if k == 'mix':
            return [{'k': 'mix', 'refs': [self.ch(refs) for _ in range(self.r.randrange(1, 12 if self.rich else 4))]}]
        if k == 'balance':
            return [{'k': 'balance', 'l': self.ch(refs), 'r': self.ch(refs)}]
        if k == 'arrange':
            return [{'k': 'arrange', 'secs': [{'r': self.ch(refs), 'n': fx(self.ch([0.25, 0.5, 1, 1, 2, 1.5, 1.25]))}
                                              for _ in range(self.r.randrange(1, 10 if self.rich else 4))]}]
        if k == 'envperc':
            return (self.signed() if self.r.random() < 0.1 else self.trig(env)) + [{'k': 'envperc', 'a': self.stime(), 'd': self.stime()}]
        if k == 'adsr':
            g = self.gate(env)
            return g + [{'k': 'adsr', 'a': self.stime(), 'd': self.stime(), 's': fx(self.ch([0, 0.25, 0.5, 1])),
                         'rel': self.stime()}]
        if k == 'oscref':
            return [{'k': self.ch(['saw', 'squ', 'tri', 'sin']), 'p': {'r': self.ch(self.of(env, 'f'))}}]
        if k == 'points':
            return [self.points()]
        if k == 'sp':
            # at times without any trigger, only values below zero
            down = [{'k': 'mul', 'p': {'n': -S}}] if self.r.random() < 0.04 else []
            return self.trig(env) + down + [{'k': 'sp', 'name': self.ch(self.o['samples'])}]
        if k == 'psampler':
            return [{'k': 'psampler', 'pat': [{'name': self.ch(self.o['samples']), 't': t} for t in self.times()],
                     'span': self.span()}]
        if k == 'psynth':
            return [{'k': 'psynth', 'notes': [{'m': self.pitch(), 't': fx(t / 128)} for t in
                                              sorted(self.r.sample(range(0, 24), self.r.randrange(1, 12 if self.rich else 4)))],
                     'span': fx(self.ch([0.0625, 0.125, 0.25, 1]))}]
        if k == 'msgsynth':
            return [{'k': 'msgsynth', 'name': self.ch(['\\saw', '\\x1']), 'a': self.secs(self.ch([1, 3, 40])),
                     'd': self.secs(self.ch([1, 8, 200]))}]
        if k == 'drum':
            return self.trig(env) + [{'k': self.ch(['bd', 'sn', 'hh']), 'p': n(self.inner())}]
        if k == 'synth':
            return self.trig(env) + [{'k': self.ch(['sawsynth', 'squsynth', 'trisynth']), 'a': self.inner(),
                                      'd': self.inner()}]
        if k == 'eval':
            return [self.eval(False)]
        if k == 'meta':
            return [self.meta(self.r.random() < 0.1)]
        raise ValueError(k)

    def pitch(self):
        """a note with a frequency below the sample rate: an octave of 440 Hz"""
        return self.ch([m for m in (9, 21, 33, 45, 57, 69, 81) if 440 * 2 ** ((m - 69) / 12) < 0.9 * self.sr][-3:])

    def inner(self):
        """a time in seconds that is not near a whole number of samples at 44100"""
        hi = self.ch([100, 400, 2000, 20000, 200000])
        while True:
            j = self.r.randrange(1, hi)
            if 0.2 < j * 44100 / 65536 % 1 < 0.8:
                return j

    def expr(self, names, depth=2):
        z = self.r.random()
        if depth == 0 or z < 0.15:
            return {'v': self.ch(names)} if self.r.random() < 0.7 else {'n': self.val()}
        e = lambda: self.expr(names, depth - 1)
        if z < 0.35:
            return {'op': self.ch('+-'), 'a': e(), 'b': e()}
        if z < 0.6:
            return {'op': '*', 'a': e(), 'b': {'n': self.gain()}}
        if z < 0.68:
            return {'op': '*', 'a': e(), 'b': e()}
        if z < 0.74:
            return {'op': '/', 'a': e(), 'by': self.ch([2, 4, 3, 10])}
        if z < 0.85:
            return {'op': self.ch(['neg', 'abs']), 'a': e()}
        return None if depth < 2 else {'op': '*', 'a': e(), 'b': {'n': self.gain()}}

    def full(self, e):
        """without holes"""
        if e is None:
            return {'v': 'x'}
        return {k: self.full(v) if k in ('a', 'b') else v for k, v in e.items()}

    def time_expr(self):
        """something of the running time and the sample rate"""
        ph = {'op': '%', 'a': {'v': 'phase'}, 'by': self.ch([2, 4, 5, 8, 16])}
        z = self.r.random()
        if z < 0.3:
            return {'op': '/', 'a': ph, 'by': self.ch([4, 8, 16])}
        if z < 0.6:
            return {'op': self.ch('<>'), 'a': ph, 'b': {'n': fx(self.ch([0, 1, 3]) + 0.5)}}
        return {'op': '/', 'a': {'v': self.ch(['phase', 'sr'])}, 'by': self.ch([64, 256, 1024])}

    def code(self, names, fresh):
        """assignments and a final expression; assigned values stay bounded"""
        out = []
        names = list(names)
        for _ in range(self.ch([0, 0, 1, 1, 2, 3])):
            to = self.ch(fresh)
            e = self.full(self.expr(names))
            if self.r.random() < 0.5:
                e = {'op': '+', 'a': {'op': '*', 'a': {'v': to}, 'b': {'n': fx(self.ch([0.5, 0.75, -0.5, 0.875]))}},
                     'b': {'op': '*', 'a': e, 'b': {'n': fx(0.125)}}}
            else:
                e = {'op': '*', 'a': e, 'b': {'n': fx(self.ch([0.25, 0.5, -0.5]))}}
            out.append({'to': to, 'e': e})
            names.append(to)
        out.append({'to': '', 'e': self.full(self.expr(names))})
        return out

    def eval(self, fed):
        names = ['x', 'y', 'z'] + (['in'] * 4 if fed or self.r.random() < 0.1 else []) + \
            (['nosuch'] if self.r.random() < 0.05 else [])
        c = self.code(names, ['x', 'y', 'z', 'a1', 'fb_2'])
        if self.r.random() < (0.3 if fed else 0.9):
            c.insert(0, {'to': 'p', 'e': self.time_expr()})
            c[-1]['e'] = {'op': '+', 'a': c[-1]['e'], 'b': {'v': 'p'}}
        return {'k': 'eval', 'code': c}

    def meta(self, fed):
        if self.r.random() < 0.03:
            return {'k': 'meta', 'code': []}
        names = ['x', 'y', 'x0', 'a'] + (['in'] * 4 if fed else [])
        c = self.code(names, ['x', 'y', 'z', 'x0', 'x1', 'a'])
        if not fed or self.r.random() < 0.2:
            # a counter of its own
            c.insert(0, {'to': 't', 'e': {'op': '%', 'a': {'op': '+', 'a': {'v': 't'}, 'b': {'n': S}},
                                          'by': self.ch([4, 8, 16])}})
            c[-1]['e'] = {'op': '+', 'a': c[-1]['e'], 'b': {'op': '/', 'a': {'v': 't'}, 'by': self.ch([4, 16])}}
        out = {'k': 'meta', 'code': c, 'n': self.o['n']}
        if self.r.random() < 0.2:
            # a variable of one run of the script
            out['let'] = self.ch(['let q = 1.0; ', 'let w1 = [1, 2]; let q = x0; '])
        return out

    def span(self):
        return fx(self.ch([0.25, 0.5, 1, 1, 2] + [3, 4] * self.rich))

    def times(self):
        if self.rich:
            return [fx(t / 32) for t in sorted(self.r.sample(range(0, 32), self.r.randrange(1, 17)))]
        return [fx(t / 8) for t in sorted(self.r.sample(range(0, 8), self.r.randrange(1, 4)))]

    def points(self):
        n = self.r.randrange(1, 13 if self.rich else 5)
        pts = []
        grid = 32 if self.rich else 8
        ts = sorted(self.r.sample(range(0, grid + (8 if self.rich else 0)), n))
        if self.r.random() < 0.15:
            # a jump
            ts = sorted(ts + [self.ch(ts)])
        for t in ts:
            u = self.ch(['', '', 's', 'ms'])
            d = 0 if u == '' else fx((self.r.randrange(0, 2) + 0.5) / self.sr) if u == 's' else \
                fx((2 * self.r.randrange(0, 2) + 1) * 500 / self.sr)
            # a time before the place in the cycle, where there is room for it
            if not self.rich and t > 0 and self.r.random() < 0.3 and self.sr >= 64:
                d = -d
            pts.append({'b': fx(t / grid), 'u': u, 'd': d, 'v': self.val()})
        return {'k': 'points', 'pts': pts, 'span': fx(self.ch([1, 1, 0.5, 2])), 'loop': self.r.randrange(2)}

    def proc(self, env):
        w = dict(self.PROC)
        w.update(self.o['proc'])
        sig = [x for x in env if self.rank(x)[0] >= 50 or x[1] in 'tgepq']
        if not self.o['refs'] or not sig:
            w['mulref'] = w['addref'] = 0
        for k, t in (('panref', 'p'), ('delaymsref', 'm'), ('apfref', 'm'), ('onepoleref', 'q'), ('lpfref', 'c'),
                     ('rhpfref', 'c')):
            if not self.of(env, t):
                w[k] = 0
        if self.sr > 256:           # cutoff signals are at most 64 Hz
            w['lpfref'] = w['rhpfref'] = 0
        k = self.wch(w)
        n = lambda v: {'n': v}
        if k == 'mul':
            return {'k': 'mul', 'p': n(self.gain())}
        if k in ('eval', 'meta'):
            return getattr(self, k)(True)
        if k == 'add':
            return {'k': 'add', 'p': n(self.val())}
        if k in ('mulref', 'addref'):
            return {'k': k[:3], 'p': {'r': self.ch(sig + ['~input'])}}
        if k == 'pan':
            return {'k': 'pan', 'p': n(fx(self.ch([-1, -0.5, 0, 0.25, 0.5, 1, 2, -3])))}
        if k == 'panref':
            return {'k': 'pan', 'p': {'r': self.ch(self.of(env, 'p'))}}
        if k == 'plate':
            return {'k': 'plate', 'p': n(fx(self.ch([0, 0.25, 0.5, 0.75])))}
        if k == 'delayn':
            return {'k': 'delayn', 'p': n(self.ch([0, 1, 1, 2, 3, self.o['n'], self.o['n'] + 1, 13, 20] + [64, 100, 129, 300] * self.rich))}
        if k == 'delayms':
            return {'k': 'delayms', 'p': n(self.ms())}
        if k == 'delaymsref':
            return {'k': 'delayms', 'p': {'r': self.ch(self.of(env, 'm'))}}
        if k in ('apf', 'apfref'):
            p = n(self.ms(20)) if k == 'apf' else {'r': self.ch(self.of(env, 'm'))}
            return {'k': 'apfmsgain', 'p': p, 'g': fx(self.ch([-0.5, 0, 0.25, 0.5, 0.75]))}
        if k == 'onepole':
            return {'k': 'onepole', 'p': n(fx(self.ch([0.0625, 0.125, 0.1875, 0.25, 0.5, 1])))}
        if k == 'onepoleref':
            return {'k': 'onepole', 'p': {'r': self.ch(self.of(env, 'q'))}}
        if k in ('lpf', 'rhpf', 'lpfref', 'rhpfref', 'lpfpat'):
            q = fx(self.ch([0.5, 1, 2]))
            if k.endswith('ref'):
                return {'k': k[:-3], 'p': {'r': self.ch(self.of(env, 'c'))}, 'q': q}
            fc = lambda: self.ch([5, 6, 8, 12, 16, 22, 26]) * self.sr * S // 64
            if k == 'lpfpat':
                ts = self.times()
                if self.sr not in (64, 128, 256):
                    ts[0] = 0       # the initial cutoff of 20 Hz is extreme for other sample rates
                return {'k': 'lpf', 'pat': [{'v': fc(), 't': t} for t in ts], 'span': self.span(), 'q': q}
            return {'k': k, 'p': n(fc()), 'q': q}
        raise ValueError(k)

    def signal(self, env):
        c = self.source(env)
        for _ in range(self.r.randrange(15) if self.scale == 'deep' else self.ch([0, 0, 1, 1, 1, 2, 2, 3])):
            if len(c) < self.o['max_len'] + 2:
                c.append(self.proc(env))
        return c

    # ---- programs: dict name -> components
    HIDDEN = ['~a', '~b', '~x1', '~x_2', '~xy', '~amp', '~bass']
    HEARD = ['o', 'out', 'b1', '_u', 'oo', 'out2']

    def names(self):
        """names of a program"""
        k = self.r.randrange(1, self.o['max_chains'] + 1)
        if self.scale == 'wide':
            k = self.r.randrange(8, 2 * self.o['max_chains'])
        aux = ['~t1', '~g1', '~e1', '~f1', '~m1', '~c1', '~p1', '~q1', '~i', '~k']
        out = [self.ch(self.HEARD)]
        for _ in range(k - 1):
            z = self.r.random()
            out.append(self.ch(self.HEARD) if z < 0.25 else self.ch(self.HIDDEN) if z < 0.6 else self.ch(aux))
        # chains of the types that the suite wants to be referred to
        for t in self.o['aux']:
            if self.r.random() < 0.5:
                out.append('~' + t if t in 'ijkl' else '~' + t + '1')
        return sorted(set(out), key=self.rank)

    def program(self):
        prog = {}
        for nm in self.names():
            prog[nm] = self.chain(nm, prog)
        return prog

    def mutate(self, prog):
        """an edited program (of the same typing)"""
        prog = {k: [dict(c) for c in v] for k, v in prog.items()}
        for _ in range(self.ch([1, 1, 1, 2, 3])):
            if not prog:
                return self.program()
            k = self.r.randrange(15)
            nm = self.ch(sorted(prog))
            free = self.rank(nm)[0] >= 50        # only untyped chains may be edited node by node
            cs = prog[nm]
            env = self.lower(nm, prog)
            if k == 0:
                new = self.ch(self.names())
                if new not in prog:
                    prog[new] = self.chain(new, prog)
            elif k == 1 and len(prog) > 1:
                self.drop(prog, nm)
            elif k == 2:
                prog[nm] = self.chain(nm, prog)
            elif not free:
                prog[nm] = self.chain(nm, prog)
            elif k >= 12:
                i = self.r.randrange(len(cs))
                cs[i] = self.tweak(cs[i], env)
            elif k == 10:
                # another source in front of the same nodes
                if all(self.movable(c) for c in cs[1:]):
                    prog[nm] = self.source(env) + cs[1:]
            elif k == 11:
                # nodes that lose their source
                if len(cs) > 1 and all(self.movable(c) for c in cs[1:]) and cs[1]['k'] not in ('lpf', 'rhpf', 'meta'):
                    del cs[0]
            elif k in (3, 4):
                cs.insert(self.r.randrange(1, len(cs) + 1), self.proc(env))
            elif k in (5, 6):
                i = self.r.randrange(len(cs))
                if i > 0 and self.movable(cs[i]):
                    del cs[i]
            elif k == 7 and len(cs) > 1:
                i = self.r.randrange(1, len(cs))
                j = self.r.randrange(1, len(cs))
                if self.movable(cs[i]) and self.movable(cs[j]):
                    cs[i], cs[j] = cs[j], cs[i]
            elif k == 8:
                i = self.r.randrange(len(cs))
                if self.movable(cs[i]):
                    cs.insert(self.r.randrange(1, len(cs) + 1), dict(cs[i]))
            else:
                i = self.r.randrange(len(cs))
                if self.movable(cs[i]):
                    cs[i] = self.proc(env)
            if nm in prog:
                self.fix(nm, prog)
        return dict(sorted(prog.items(), key=lambda kv: self.rank(kv[0])))

    def tweak(self, c, env):
        """the same node with one detail changed"""
        c = copy.deepcopy(c)
        k = c['k']
        any_of = lambda xs: self.r.randrange(len(xs))
        if k == 'seq':
            row = self.ch(c['steps'])
            notes = [x['m'] for r in c['steps'] for x in r if 'm' in x] + [60, 72]
            row[any_of(row)] = self.ch([{'x': 1}, {'m': self.ch(notes)}, {'m': self.ch(notes)}])
            if self.r.random() < 0.2:
                c['steps'].append([{'m': self.ch(notes)}])
            ok = self.seq_sure(c['steps']) and self.seqs.setdefault(self.seq_key(c['steps']), c['steps']) == c['steps']
            return c if ok else {'k': 'seq', 'steps': [[{'m': 60}]]}
        if k == 'points':
            z = self.r.random()
            if z < 0.6:
                self.ch(c['pts'][-2:] + c['pts'])['v'] = self.val()
            elif z < 0.75:
                c['loop'] = 1 - c['loop']
            elif z < 0.9:
                c['span'] = fx(self.ch([1, 0.5, 2]))
            elif len(c['pts']) > 1:
                c['pts'].pop()
        elif 'pat' in c and self.r.random() < 0.5:
            if self.r.random() < 0.5 or len(c['pat']) < 2:
                c['span'] = self.span()
            else:
                c['pat'].pop()
        elif k == 'psampler':
            self.ch(c['pat'])['name'] = self.ch(self.o['samples'])
        elif 'pat' in c:
            self.ch(c['pat'])['v'] = self.ch([5, 6, 8, 12, 16]) * self.sr * S // 64
        elif k == 'psynth':
            self.ch(c['notes'])['m'] = self.pitch()
        elif k == 'mix':
            c['refs'][any_of(c['refs'])] = self.ch(c['refs'] + ['~input'])
        elif k == 'arrange':
            self.ch(c['secs'])['n'] = fx(self.ch([0.25, 0.5, 1, 2]))
        elif k == 'balance':
            c['l'], c['r'] = c['r'], c['l']
        elif k in ('envperc', 'adsr', 'msgsynth'):
            f = self.ch([x for x in c if x not in ('k', 'name')])
            c[f] = fx(self.ch([0, 0.25, 0.5, 1])) if f == 's' else self.stime()
        elif k in ('sawsynth', 'squsynth', 'trisynth'):
            c[self.ch('ad')] = self.inner()
        elif k == 'noise':
            c['seed'] = self.ch(SEEDS)
        elif k in self.PROCS:
            for _ in range(40):
                d = self.proc(env)
                if d['k'] == k:
                    if set(c) == set(d) and len(d) > 2 and self.r.random() < 0.7:
                        f = self.ch([x for x in d if x != 'k'])
                        c[f] = d[f]
                        return c
                    return d
        elif 'r' in c.get('p', {}) or k not in ('saw', 'squ', 'tri', 'sin', 'imp', 'speed', 'sig'):
            pass
        else:
            c['p'] = self.speed()['p'] if k == 'speed' else \
                {'n': self.imp_freq() if k == 'imp' else self.val() if k == 'sig' else self.freq()}
        return c

    PROCS = {'mul', 'add', 'pan', 'delayn', 'delayms', 'apfmsgain', 'onepole', 'lpf', 'rhpf', 'eval', 'meta', 'plate'}
    EXACT_IN = ('envperc', 'adsr', 'sp', 'seq', 'bd', 'sn', 'hh', 'sawsynth', 'squsynth', 'trisynth')

    def movable(self, c):
        return c['k'] in self.PROCS

    def fix(self, nm, prog):
        """in front of nodes that need an exact or trigger input only plain arithmetic may stand"""
        cs = prog[nm]
        for i, c in enumerate(cs):
            if c['k'] in self.EXACT_IN and \
                    any(self.movable(d) and not self.plain(d) for d in cs[:i]):
                prog[nm] = self.chain(nm, prog)
                return

    def plain(self, d):
        v = d.get('p', {}).get('n')
        return d['k'] == 'mul' and (v in (S // 2, S, 2 * S) or v == S // 16 and not self.o['samples']) or d['k'] == 'add' and v == S

    def drop(self, prog, nm):
        """remove a chain and whatever refers to it"""
        del prog[nm]
        again = True
        while again:
            again = False
            for k in list(prog):
                if any(x not in prog and x != '~input' and not x.endswith('..') for c in prog[k] for x in refs(c)):
                    if self.rank(k)[0] >= 50 and self.r.random() < 0.5:
                        prog[k] = self.chain(k, prog)
                    else:
                        del prog[k]
                    again = True

    # ---- operations
    def upd(self, prog, style=None):
        chains = [{'name': k, 'nodes': v} for k, v in prog.items()]
        return {'op': 'update', 'prog': chains, 'text': glang.program(chains, style)}

    def block(self):
        b = {'op': 'block'}
        if self.r.random() < 0.3:
            n = self.o['n']
            b['in'] = [[fx(self.r.randrange(-8, 9) / 8) for _ in range(n)] for _ in range(self.ch([1, 2, 2]))]
        return b

    def msg_for(self, c):
        """a parameter number and a new value for a component"""
        k = c['k']
        if k in ('saw', 'squ', 'tri', 'sin'):
            return 0, self.freq()
        if k in ('sig', 'add'):
            return 0, self.val()
        if k == 'mul':
            return 0, self.gain()
        if k == 'speed':
            return 0, fx(self.ch([0.5, 1, 2, 4]))
        if k == 'pan':
            return 0, fx(self.ch([-1, -0.5, 0, 0.5, 1, 2]))
        if k == 'imp':
            return 0, self.imp_freq()
        if k == 'noise':
            return 0, fx(self.ch(SEEDS[:-1]))
        if k == 'delayn':
            return 0, fx(self.ch([0, 1, 2, 5, 9]))
        if k == 'delayms':
            return 0, self.ms(20)
        if k == 'apfmsgain':
            return (0, self.ms(20)) if self.r.random() < 0.5 else (1, fx(self.ch([-0.5, 0.25, 0.5])))
        if k == 'onepole':
            return 0, fx(self.ch([0.125, 0.25, 0.5]))
        if k in ('lpf', 'rhpf'):
            return (0, self.ch([6, 8, 12, 16]) * self.sr * S // 64) if self.r.random() < 0.5 else (1, fx(self.ch([0.5, 1, 2])))
        if k == 'envperc':
            return self.r.randrange(2), self.stime()
        if k in ('bd', 'sn', 'hh'):
            return 0, self.inner()
        if k in ('sawsynth', 'squsynth', 'trisynth'):
            return self.r.randrange(2), self.inner()
        if k == 'plate':
            return 0, fx(self.ch([0, 0.25, 0.5, 1]))
        if k == 'msgsynth':
            return self.ch([1, 2]), self.secs(self.ch([3, 40]))
        if k == 'adsr':
            i = self.r.randrange(4)
            return i, fx(self.ch([0.25, 0.5])) if i == 2 else self.stime()
        if k == 'arrange':
            return 2 * self.r.randrange(len(c['secs'])) + 1, fx(self.ch([0.25, 0.5, 1]))
        if k == 'points':
            return 1, fx(self.ch([0.5, 1, 2]))
        return self.r.randrange(3), self.val()

    SAFE_MSG = {'saw', 'squ', 'tri', 'sin', 'sig', 'add', 'mul', 'speed', 'pan', 'imp', 'noise', 'delayn', 'delayms',
                'apfmsgain', 'onepole', 'lpf', 'rhpf', 'envperc', 'adsr', 'arrange', 'seq', 'get', 'mix', 'balance',
                'bd', 'sn', 'hh', 'sawsynth', 'squsynth', 'trisynth', 'plate', 'msgsynth', 'psynth', 'eval', 'meta',
                'points'}

    def msg(self, prog, style=None):
        """a control message that stays within the typing: typed chains only get what keeps their type"""
        cand = [(nm, i) for nm in prog for i, c in enumerate(prog[nm])
                if c['k'] in self.SAFE_MSG and self.msg_ok(nm, prog[nm], i)]
        if not cand:
            return None
        nm, i = self.ch(cand)
        if self.mixed and prog[nm][i]['k'] in ('lpf', 'rhpf', 'delayms', 'apfmsgain'):
            return None
        c = prog[nm][i]
        if c['k'] in ('msgsynth', 'eval', 'meta') and self.r.random() < 0.8:
            return self.text_msg(nm, i, c)
        pos, v = self.msg_for(c)
        return self.msg_op(nm, i, pos, v, style)

    def msg_ok(self, nm, cs, i):
        if cs[i]['k'] in ('imp', 'speed', 'envperc', 'adsr', 'arrange', 'seq', 'get', 'mix', 'balance', 'noise'):
            return True
        if cs[i]['k'] in ('saw', 'squ', 'tri') and self.rank(nm)[0] < 50:
            return nm[1] not in 'gtijkl'
        if self.rank(nm)[0] < 50:
            return False
        # nodes in front of one that needs an exact input
        return not any(c['k'] in self.EXACT_IN for c in cs[i + 1:])

    def text_msg(self, nm, i, c):
        bad = self.r.random() < 0.2
        pos, sym = 0, {}
        if c['k'] == 'msgsynth':
            at, note = self.secs(self.ch([100, 500, 900] if self.sr > 256 else [20, 60])), self.pitch()
            pos, text = 3, '%s=>%d' % (glang.num(at), note)
            sym = {'at': at, 'note': note}
            if bad:
                sym = {}
                pos, text = self.ch([(0, text), (4, text), (3, 'abc'), (3, '=>'), (3, '1=>x'), (3, 'x=>60'), (3, '=60')])
        elif c['k'] == 'eval':
            code = [{'to': '', 'e': self.time_expr() if self.r.random() < 0.4 else self.full(self.expr(['x', 'y', 'in', 'in']))}]
            if self.r.random() < 0.2:
                code[0]['to'] = 'x'
            text = (code[0]['to'] + ':=' if code[0]['to'] else '') + glang.expr(code[0]['e'])
            sym = {'code': code}
            if 'n' in code[0]['e']:
                return None
            if bad:
                pos, text, sym = self.ch([(1, text, {}), (0, '1+', {}), (0, '(', {}), (0, 'x:=', {})])
        else:
            text = self.ch(['nosuch(', '}{', '@'])
            if self.r.random() < 0.5:
                # well formed, but without a block as its result
                text, sym = self.ch(['nosuch', 'x0', '()', 'no.such', '"abc"', 'throw 1']), {'script': []}
        return {'op': 'msg', 'chain': nm, 'node': i, 'pos': pos, 'val': 0, 'sym': sym,
                'text': '%s,%d,%d,%s' % (nm, i, pos, text)}

    def msg_op(self, nm, i, pos, v, style=None):
        return {'op': 'msg', 'chain': nm, 'node': i, 'pos': pos, 'val': v,
                'text': '%s,%d,%d,%s' % (nm, i, pos, glang.num(v))}


def refs(c):
    k = c['k']
    if k == 'mix':
        return list(c['refs'])
    if k == 'balance':
        return [c['l'], c['r']]
    if k == 'arrange':
        return [s['r'] for s in c['secs']]
    if k == 'seq':
        return [x['r'] for row in c['steps'] for x in row if 'r' in x]
    if 'p' in c and 'r' in c['p']:
        return [c['p']['r']]
    return []
