"""Histories of arbitrary input for the crash-freedom property: extreme programs, broken texts, odd messages and settings.

Everything between two resets is unknown to the model except that the engine answers, keeps playing, and that rejected
code changes nothing; after a reset the engine has to be a fresh one again."""
import random
import re
import string

import gen
import glang
import suites

NUMS = ['0', '1', '-1', '0.5', '-0.5', '2', '3', '7', '0.1', '0.0', '100', '440', '-440', '1000', '44100', '1.0e3', '0.001',
        '1.0e-30', '-7', '12.7', '65536', '1.0e6', '-1.0e6', '0.0001', '999999']
BIG = ['1.0e9', '1.0e30', '-1.0e30', '3.5e38', '1.0e400', '-1.0e-400', '4294967296', '18446744073709551616', '-2147483649',
       '99999999999999999999999999', '0.00000000000000000000000000000000000000000000001']
# parameters of a sound one can hear, at any of the sample rates
ORDINARY = ['0.0001', '0.001', '0.01', '0.1', '0.5', '1', '2', '100']
SYMS = ['\\s', "'s'", '\\s-1', '\\kick', "'a_b'"]
NAMES = ['o', 'a', '~a', '~b', 'out', '~x1', '_u', '~input', '~t', 'o1']
REFS = NAMES + ['~a..', '~..', '_u..', '~nope', 'o..', 'r', '~in..', '~input']
CODES = ['output.pad(128, 0.0);', 'output', '1', '', ';', 'let x = 1;', 'output.clear(); output', 'while x < 10 {', '60=>1/2;',
         '[60=>0.1]', 'x', '"a"', '60 => 0.5; 69=>1', '0.1', 'phase+1', 'for i in 0..16 { output.push(0.1) } output',
         'output.pad(16, 0.0); output', '[1,2', 'fn f(x) { f(x) } f(1)', 'loop { }'[:0], 'throw 1;', 'output[0]', 'output[9999]',
         'input[0]', 'x = ', '()', '60=>1/4;61=>1/0', '0=>0', '-1=>1', '999=>1/2', '60=>-1', '60', '=>', '60=>', '60.5=>0.5', '0 60', '0.5 60, 0.75 64', '0 nan', 'inf 60', '-1 60, 0 1e30',
         '0 60,', ',', '0 60,0 60 7', '0 60,0.001 72,0.002 -5,0.003 999']
EVALS = ['x := 1; x', 'x', '', '1/0', 'a := in; a * 2', 'sin(x)', 'x := y; y', '1 +', ')(', 'x:=1;', 'true', 'x%0', '2^9999',
         'a:=1;b:=a+1;b', '1;2', 'x:=1;2;x', ';', ':=', 'x:=1:=2', 'sqrt(-1)', 'in', 'x := phase; x > 1', '[1]', 'abc', '1.1.1', '%']


class Fuzz:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.names = NAMES          # of the program being made
        # messages with extreme numbers only go to programs without delay lines: the length of a line is memory
        self.extreme = self.r.random() < 0.5
        self.giant = []
        self.lively = False

    def ch(self, xs):
        return self.r.choice(xs)

    def num(self):
        z = self.r.random()
        if self.lively:
            return self.ch(ORDINARY if z < 0.7 else BIG + NUMS)
        if self.giant and z < 0.6:
            return self.ch(self.giant)
        if z < 0.8:
            return self.ch(NUMS)
        if z < 0.85:
            return self.ch(BIG)
        return repr(round(self.r.uniform(-1000, 1000), self.r.randrange(0, 5)))

    def small(self):
        """numbers for delay lengths, which are memory"""
        return self.ch(['0', '1', '-1', '0.5', '100', '127', '128', '129', '1000', '-100', '44100.5', '3', '0.0', '1.0e3'])

    def int(self):
        if self.r.random() < 0.8:
            return self.ch(['0', '1', '2', '3', '4', '60', '127'])
        return self.ch(['0', '1', '-1', '7', '60', '127', '128', '99999', '4294967296', '18446744073709551616', '-60', '+60', '000'])

    def ref(self):
        return self.ch(REFS) if self.r.random() < 0.03 else self.ch(self.names)

    def par(self):
        return self.num() if self.r.random() < 0.6 else self.ref()

    def pattern(self, sym):
        body = ' '.join((self.ch(SYMS) if (sym or self.r.random() < 0.1) else self.num()) + '@' + self.num()
                        for _ in range(self.r.randrange(1, 4)))
        return '"%s"' % body + self.ch(['', '()', '(1)', '(%s)' % self.num(), '(0)', '(-1)'])

    def node(self):
        r = self.r
        k = r.randrange(45)
        n, p, f = self.num, self.par, self.ref
        if k < 4:
            return self.ch(['sin', 'saw', 'squ', 'tri']) + ' ' + p()
        if k < 9:
            return self.ch(['mul', 'add', 'pan', 'onepole', 'mul']) + ' ' + p()
        return self.ch([
            lambda: 'imp ' + n(), lambda: 'sig ' + n(), lambda: 'constsig ' + n(), lambda: 'noise ' + n(), lambda: 'speed ' + n(),
            lambda: self.delay(), lambda: self.delay(), lambda: self.delay(),
            lambda: 'lpf %s %s' % (p(), n()), lambda: 'lpf %s %s' % (self.pattern(False), n()), lambda: 'rhpf %s %s' % (p(), n()),
            lambda: 'hpf %s %s' % (p(), n()), lambda: 'envperc %s %s' % (n(), n()),
            lambda: 'adsr %s %s %s %s' % (n(), n(), n(), n()), lambda: 'plate ' + n(),
            lambda: 'seq ' + self.seq(), lambda: 'seq ' + self.seq(), lambda: 'choose ' + ' '.join(self.int() for _ in range(r.randrange(1, 4))),
            lambda: 'mix ' + ' '.join(f() for _ in range(r.randrange(1, 4))), lambda: f(), lambda: 'get ' + f(),
            lambda: 'sendpass ' + f(), lambda: 'balance %s %s' % (f(), f()), lambda: 'arrange ' + ' '.join(f() + ' ' + n() for _ in range(r.randrange(1, 4))),
            lambda: 'sp ' + self.ch(SYMS), lambda: 'sampler ' + self.ch(SYMS), lambda: 'psampler ' + self.pattern(True),
            lambda: self.ch(['bd', 'sn', 'hh']) + ' ' + n(), lambda: self.ch(['sawsynth', 'squsynth', 'trisynth']) + ' %s %s' % (n(), n()),
            lambda: 'psynth `%s`' % self.ch(CODES) + (' ' + n() if r.random() < 0.5 else ''), lambda: 'meta `%s`' % self.ch(CODES),
            lambda: 'eval `%s`' % self.ch(EVALS),
            lambda: 'msgsynth %s %s %s' % (self.ch(SYMS), n(), n()), lambda: self.ch(['reverb ' + ' '.join(n() for _ in range(5)), 'expr `%s`' % self.ch(EVALS), 'adc ' + n(), 'nosuch 1'])
            if r.random() < 0.2 else 'sin ' + p(),
            lambda: self.points(), lambda: self.points(), 
        ])()

    def delay(self):
        if self.extreme:
            return 'mul ' + self.par()
        k = self.ch(['delayn', 'delayms', 'apfmsgain'])
        return k + ' ' + (self.small() if self.r.random() < 0.7 else self.ref()) + (' ' + self.num() if k == 'apfmsgain' else '')

    def seq(self):
        out = []
        for _ in range(self.r.randrange(1, 6)):
            refs = [x for x in self.names if len(x) == 2 and x[0] == '~']
            out.append(''.join(self.ch(['_', '60', '+7', '0', '127', '__'] + refs) if self.r.random() < 0.97 else
                               self.ch(['~a', '-7', '999999999', '18446744073709551616', '~b'])
                               for _ in range(self.r.randrange(1, 5))))
        return ' '.join(out)

    def points(self):
        pts = []
        for _ in range(self.r.randrange(0, 5)):
            t = self.ch([self.num(), '%s/%s' % (self.int(), self.int()), '1/4', '3/4', '0'])
            if self.r.random() < 0.4:
                t += self.ch(['+', '-']) + self.num() + self.ch(['_ms', '_s'])
            pts.append('%s=>%s' % (t, self.num()))
        m = self.ch(['', '', '*2', '/2', '*0', '/0', '*(1/2)', '/(1/0)', '*(0/0)', '*' + self.num(), '/' + self.num(), '*1.', '/-1'])
        return '[' + ' '.join(pts) + ']' + m + self.ch(['', '!'])

    def sounding(self):
        """a signal that keeps triggering something whose parameters are ordinary but for a few"""
        n, p = self.num, self.par
        source = self.ch(['imp 1000', 'imp 16', 'sig 1', 'seq 60', 'seq 60 _67 60 _', '~input', 'imp 100 >> mul 0.5', 'squ 100', 'noise 1', 'saw 16',
                          'speed 8 >> seq 60 60', 'choose 60 67 0', '[0=>1 1/4=>0]*(1/8)'])
        after = [self.ch([
            lambda: 'adsr %s %s %s %s' % (n(), n(), n(), n()), lambda: 'envperc %s %s' % (n(), n()), lambda: 'sp ' + self.ch(SYMS),
            lambda: self.ch(['bd', 'sn', 'hh']) + ' ' + n(), lambda: self.ch(['sawsynth', 'squsynth', 'trisynth']) + ' %s %s' % (n(), n()),
            lambda: 'lpf %s %s' % (p(), n()), lambda: 'lpf %s %s' % (self.pattern(False), n()), lambda: 'rhpf %s %s' % (p(), n()),
            lambda: 'onepole ' + p(), lambda: self.delay(), lambda: 'plate ' + n(), lambda: 'pan ' + p(), lambda: 'mul ' + p(),
            lambda: 'eval `%s`' % self.ch(EVALS), lambda: self.ch(['sin', 'saw', 'squ', 'tri']) + ' ' + p()])()
            for _ in range(self.ch([1, 1, 1, 2, 3]))]
        return ' >> '.join([source] + after)

    def chain(self):
        if self.lively:
            return self.sounding()
        return ' >> '.join(self.node() for _ in range(self.ch([1, 1, 2, 2, 3, 4])))

    def program(self):
        # sometimes most numbers of a program are extreme, of one kind or of several
        self.giant = self.ch([[], [], [], [], [], BIG, BIG[:5], [self.ch(BIG)], ['0', '0.0', '-0.0'], ['-1', '-0.5', '-1.0e6']])
        self.lively = self.r.random() < 0.35
        ks = self.r.sample(NAMES, self.r.randrange(1, 5))
        if self.r.random() < 0.95:
            ks = [k for k in ks if k != '~input'] or ['o']
        if self.r.random() < 0.03:
            ks.append(ks[0])
        self.names = ks + ['~input'] if self.r.random() < 0.9 else NAMES
        return '\n'.join('%s: %s' % (k, self.chain()) for k in ks)

    def large(self):
        """much of something: chains, nodes, references, steps, sections, points"""
        m = self.ch([9, 17, 33, 65, 130])
        self.lively = self.r.random() < 0.5
        self.names = ['~n%d' % k for k in range(m)]
        few = self.names[:self.ch([2, m])]
        letters = ['~' + c for c in string.ascii_lowercase]
        body = {k: 'sig ' + self.ch(NUMS) for k in self.names}
        body['o'] = self.ch([
            lambda: 'mix ' + ' '.join(self.names), lambda: 'mix ~n..', lambda: 'arrange ' + ' '.join(k + ' ' + self.num() for k in few * 3),
            lambda: 'seq ' + ' '.join(self.ch(['60', '_', '~a', '60_67', '~b']) for _ in range(m * 4)),
            lambda: 'seq ' + ' '.join(self.r.sample(letters, self.ch([2, 9, 17, 26]))) * self.ch([1, 2]),
            lambda: 'seq ' + '60' * m, lambda: 'imp 100 >> ' + ' >> '.join(self.ch(['mul ', 'add ', 'onepole ']) + self.par() for _ in range(m)),
            lambda: 'choose ' + ' '.join(self.int() for _ in range(m)),
            lambda: '[' + ' '.join('%d/%d=>%s' % (k, m, self.num()) for k in range(m)) + ']' + self.ch(['', '!', '*2', '*(1/2)!']),
            lambda: 'psampler "' + ' '.join('\\s@%s' % (k / m) for k in range(m)) + '"',
            lambda: 'imp 100 >> lpf "' + ' '.join('%s@%s' % (self.num(), k / m) for k in range(m)) + '" 1',
            lambda: 'psynth `' + ', '.join('%s %s' % (k / m, 60 + k) for k in range(m)) + '` 1',
            lambda: 'eval `' + ' '.join('x := x + %d;' % k for k in range(m)) + ' x`',
            lambda: 'sig 1 >> sp \\s', lambda: 'sig 1 >> ' + ' >> '.join(['sp \\s'] * 9),
            lambda: self.ch(self.names) + self.ch(['', ' >> mul ~n1 >> add ~n2'])])()
        for k in self.r.sample(self.names, self.ch([0, 1, 2])):
            body[k] = self.chain()
        body.update({k: 'sig %d' % (60 + j) for j, k in enumerate(letters if re.search('~[c-z]( |$)', body['o']) else letters[:2])})
        # long names, and chains that go to the output
        for k in range(self.ch([0, 0, m])):
            body['%s%d' % (self.ch(['o', 'out_', 'x' * 40]), k)] = self.ch(['sin 1', '~n1', 'sig 0.1 >> mul ~n0'])
        ks = list(body)
        self.r.shuffle(ks)
        return '\n'.join('%s: %s' % (k, body[k]) for k in ks)

    def garble(self, t):
        t = list(t)
        for _ in range(self.r.randrange(1, 6)):
            k = self.r.randrange(5)
            i = self.r.randrange(len(t) + 1)
            if k == 0 and t:
                del t[min(i, len(t) - 1)]
            elif k == 1:
                t.insert(i, self.ch(list(string.printable) + ['é', '漢', '\u0000', '\U0001f3b5', '﻿', '>>', '..', '`', '"', '~']))
            elif k == 2 and t:
                j = self.r.randrange(len(t))
                i = min(i, len(t) - 1)
                t[i], t[j] = t[j], t[i]
            elif k == 3:
                t = t[:i]
            else:
                j = self.r.randrange(len(t) + 1)
                t[i:i] = t[min(i, j):max(i, j)][:40]
        t = ''.join(t)
        # the length of a delay line is memory
        return 'o: sin 1' if re.search(r'(delayn|delayms|apfmsgain)\s*[-+0-9.]*(\d{6}|[eE])', t) else t

    def text(self):
        z = self.r.random()
        if z < 0.04:
            return self.large()
        if z < 0.75:
            return self.program()
        if z < 0.9:
            return self.garble(self.program())
        if z < 0.95:
            return ''.join(self.ch(list(string.printable) + ['é', '漢', '~', '>>', '\n', ': ']) for _ in range(self.r.randrange(0, 60)))
        return self.ch(['', '\n', ' ', '//', '// x', ';', ':', '>>', '~', 'o:', 'o: ', 'o', '(' * 200, '[' * 200, '~' * 300,
                        'o: sin ' + '4' * 400, 'o: ' + 'sin 1 >> ' * 100 + 'mul 1', 'o: seq ' + '60 ' * 300, '\t', 'o: // c',
                        '// é\no: sin 440', 'o: psynth `', 'o: [0=>1' * 20, 'o: mix ' + '~a ' * 200, 'a' * 1000 + ': sin 1'])

    def message(self):
        z = self.r.random()
        val = lambda: self.ch((['inf', '1e30'] if self.extreme else ['1e4']) + ['0', '1', '-1', 'nan', '-inf', '-1e30', '0.5', 'abc', '~a', '\\s', '`60=>1/2;`',
                               '60=>1/2', '', '440', 'NaN', '1e-40', '3', '60', 'é'])
        nm = lambda: self.ch(NAMES + ['', '~nope', 'é'])
        if z < 0.8:
            return '; '.join('%s,%s,%s,%s' % (nm(), self.ch(['0', '1', '2', '3', '9', '-1', 'x', '']),
                                              self.ch(['0', '1', '2', '3', '4', '7', '255', '256', '-1', 'x']), val())
                             for _ in range(self.r.randrange(1, 4)))
        return self.garble('o,0,0,1; ~a,1,0,2')


BPMS = [0, -1, 0.001, 1e9, 1, 60, 120, 33.3, 999, -120, 1e-30]
SAMPLE_LENS = [0, 1, 2, 3, 50, 1000]


def history(seed, i):
    r = random.Random(seed * 7368787 + i)
    f = Fuzz(r.random())
    n = r.choice([1, 2, 16, 64, 128])
    sr = r.choice([16, 8000, 44100, 44100, 48000])
    g = suites.G(r.random(), n=n, sr=16, max_chains=3)
    ops = []

    def blocks(k):
        for _ in range(f.r.randrange(1, k + 1)):
            b = {'op': 'block', 'mute': 1}
            z = f.r.random()
            if z < 0.3:
                b['in'] = [[f.ch([0, 65536, -65536, 1 << 30, 3]) for _ in range(n)] for _ in range(f.r.randrange(0, 4))]
            ops.append(b)

    for nm in SYMS:
        if f.r.random() < 0.9:
            k = f.ch(SAMPLE_LENS)
            ops.append({'op': 'sample', 'mute': 1, 'name': nm, 'sr': f.ch([1, 8000, 44100, 96000]),
                        'data': [[f.ch([0, 65536, -65536, 12345]) for _ in range(k)] for _ in range(f.ch([1, 2]))]})
    for _ in range(f.r.randrange(3, 10)):
        z = f.r.random()
        if z < 0.6:
            ops.append({'op': 'any', 'text': f.text()})
        elif z < 0.85:
            ops.append({'op': 'anymsg', 'text': f.message()})
        elif z < 0.93:
            ops.append({'op': 'anybpm', 'v': f.ch(BPMS)})
        elif z < 0.96:
            ops.append({'op': 'reset'})
        else:
            ops.append({'op': 'sr', 'v': f.ch([16, 8000, 44100, 96000])})
        blocks(3)
        # a long time with what is not too slow for it
        if f.r.random() < 0.03 and not any(re.search('sp|sampler|synth|meta|eval|plate|bd|sn|hh', o.get('text', '')) for o in ops):
            ops.append({'op': 'skip', 'blocks': f.ch([70, 600, 2100]) * 128 // n // (1 if n > 16 else 4)})
    # the engine has survived: after a reset it is as good as new
    ops.append({'op': 'sr', 'v': 16})
    ops.append({'op': 'reset'})
    p = g.program()
    ops.append(g.upd(p))
    ops += [g.block() for _ in range(3)]
    return {'id': 'f%d' % i, 'n': n, 'sr': sr, 'ops': ops, 'tol': 400}


# every place of a program a number can stand in, each with a signal in front of it and without
EDGES = ['0', '-0.0', '1', '-1', '0.5', '2', '127', '128', '129', '255', '256', '22049', '22050', '44099', '44100', '65535', '65536',
         '16777217', '1.0e-45', '1.0e-30', '-1.0e-30', '1.0e30', '-1.0e30', '3.4028235e38', '1.0e400', '-1.0e400', '2147483647',
         '2147483648', '-2147483648', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808',
         '18446744073709551615', '18446744073709551616', '-9223372036854775808']
SENT = EDGES + ['inf', '-inf', 'nan', '-0', '1e-45', '1.8446744e19', '4.2949673e9']
# the length of a delay line is memory
SHORT = ['0', '-0.0', '1', '-1', '0.5', '2', '15', '16', '17', '127', '128', '129', '1000', '-1000', '1.0e-45', '-1.0e30', '1.0e-30']
PLACES = ['imp #', 'sig #', 'constsig #', 'noise #', 'speed #', 'speed # >> seq 60 60', 'sin #', 'saw #', 'squ #', 'tri #', 'mul #', 'add #',
          'pan #', 'onepole #', 'lpf # 1', 'lpf 100 #', 'lpf # #', 'lpf "#@0.1"(1) 1', 'lpf "100@#"() 1', 'lpf "100@0.1"(#) 1', 'rhpf # 1', 'rhpf 100 #',
          'rhpf # #', 'envperc # 0.1', 'envperc 0.1 #', 'envperc # #', 'adsr # 0.1 0.5 0.1', 'adsr 0.01 # 0.5 0.1', 'adsr 0.01 0.1 # 0.1',
          'adsr 0.01 0.1 0.5 #', 'adsr # # # #', 'plate #', 'seq #', 'seq 60 #_', 'choose #', 'choose 60 #', 'arrange ~a # ~b 1', 'arrange ~a 1 ~b #',
          'arrange ~a # ~b #', 'bd #', 'sn #', 'hh #', 'sawsynth # 0.1', 'sawsynth 0.01 #', 'squsynth # #', 'trisynth # 0.1', 'trisynth 0.01 #',
          'psampler "\\s@#"(1)', 'psampler "\\s@#"()', 'psampler "\\s@0.1"(#)', '[#=>1]', '[0=>#]', '[0=>1 1/2=>#]', '[0=>1 1/2=>0]*#', '[0=>1 1/2=>0]/#', '[0=>1 1/2=>0]*#!',
          '[1/4+#_ms=>1]', '[1/4-#_s=>1 1/2=>0]', '[#/4=>1]', '[1/#=>1 1/2=>0]!', '[0=>1]*(#/2)', '[0=>1 1/4=>0]/(1/#)!', 'psynth `# 60` 1',
          'psynth `0 #` 1', 'psynth `0 60` #', 'psynth `0 60, # 67` 0.01', 'psynth `0 60,0 #,0 60` 0.001', 'meta `#`', 'eval `#`', 'eval `x := x + #; x`', 'eval `in * #`', 'sp \\s >> mul #',
          'delayn #', 'delayms #', 'apfmsgain # 0.5', 'apfmsgain 1 #', 'balance ~a ~b >> mul #', 'msgsynth \\s # 0.1', 'msgsynth \\s 0.1 #',
          'get ~a >> sin # >> mul ~b', 'mix ~a ~b >> add #', 'sin ~a >> saw #', 'noise # >> sp \\s', 'choose # # >> sin ~b']
FRONT = ['', 'imp 1000 >> ', 'sig 1 >> ', '~input >> ', 'noise 1 >> ']


def at_edges(seed, i):
    """one place of a program with one extreme number after another, written in the text and sent as messages"""
    r = random.Random(seed * 5915587 + i)
    place = PLACES[i % len(PLACES)]
    front = FRONT[i // len(PLACES) % len(FRONT)]
    n = r.choice([1, 2, 16, 64, 128])
    edges = SHORT if place.startswith(('delay', 'apfmsgain #')) else EDGES
    sent = SHORT + ['nan', '-inf'] if place.startswith(('delay', 'apfmsgain')) else SENT
    ops = [{'op': 'sample', 'mute': 1, 'name': '\\s', 'sr': 44100, 'data': [[65536 * (-1) ** j for j in range(r.choice([1, 2, 50]))]] * r.choice([1, 2])}]

    def blocks():
        for _ in range(r.choice([1, 2])):
            ops.append({'op': 'block', 'mute': 1, **({'in': [[r.choice([0, 65536, -65536]) for _ in range(n)]] * r.choice([1, 2])} if 'input' in front else {})})

    def text(v):
        w = v if r.random() < 0.8 else r.choice(edges)
        body = place.replace('#', v, 1).replace('#', w)
        ops.append({'op': 'any', 'text': '%s: %s%s\n~a: sig 60\n~b: saw 100' % (r.choice(['o', 'o', '~t']), front, body)})
        blocks()

    for v in r.sample(edges, len(edges)):
        if r.random() < 0.1:
            ops.append({'op': 'anybpm', 'v': r.choice([1, 60, 120, 999])})
        text(v)
    text(r.choice(['1', '0.1', '60']))
    for v in r.sample(sent, len(sent)):
        at = r.choice([0, 1, 1, 2]) if front else r.choice([0, 0, 1])
        ops.append({'op': 'anymsg', 'text': '%s,%d,%d,%s' % (r.choice(['o', '~t']), at, r.choice([0, 0, 0, 1, 1, 2, 3, 4]), v)})
        blocks()
    return {'id': 'e%d' % i, 'n': n, 'sr': r.choice([16, 8000, 44100]), 'ops': ops, 'tol': 400}
