"""The text of a program given as components (the structure the specification works on)."""
S = 65536


def num(v):
    """decimal spelling of a fixed-point number"""
    if v % S == 0:
        return str(v // S)
    sign = '-' if v < 0 else ''
    a = abs(v)
    frac = ('%.16f' % ((a % S) / S))[2:].rstrip('0')
    return '%s%d.%s' % (sign, a // S, frac)


class Style:
    """Layout and spelling; the plain style when no random generator is given."""

    def __init__(self, rnd=None):
        self.r = rnd

    def pick(self, *xs):
        return xs[0] if self.r is None else self.r.choice(xs)

    def sp(self):
        if self.r is None:
            return ' '
        return ''.join(self.r.choice([' ', ' ', ',', '|', '\t']) for _ in range(self.r.choice([1, 1, 1, 2, 3])))

    def osp(self):
        if self.r is None:
            return ' '
        return ''.join(self.r.choice([' ', ' ', ',', '|', '\t']) for _ in range(self.r.choice([0, 1, 1, 2])))

    def num(self, v):
        t = num(v)
        if self.r is None:
            return t
        k = self.r.randrange(7)
        if k == 1 and not t.startswith('-'):
            t = '+' + t
        elif k == 2:
            t = t + '.' if '.' not in t else t + '0'
        elif k == 3:
            t = t + '.0' if '.' not in t else t + '00'
        elif k == 4 and '.' not in t and v != 0 and v % (10 * S) == 0:
            t = t[:-1] + '.0e1'
        elif k >= 5:
            # the point moved by an exponent
            sign, a = ('-', t[1:]) if t.startswith('-') else ('', t)
            whole, _, frac = a.partition('.')
            by = self.r.randrange(-3, 4)
            if by > 0:
                whole = whole.rjust(by + 1, '0')
                whole, frac = whole[:-by], whole[-by:] + frac
            elif by < 0:
                frac = frac.ljust(-by, '0')
                whole, frac = whole + frac[:-by], frac[-by:]
            t = sign + whole + '.' + frac + self.r.choice('eE') + (self.r.choice(['+', '']) if by >= 0 else '') + self.r.choice(['%d', '%03d']) % by
        return t

    def int(self, v):
        t = str(v)
        if self.r is not None and self.r.randrange(5) == 0:
            t = self.r.choice(['+', '0', '00']) + t
        return t


def par(p, st):
    return p['r'] if 'r' in p else st.num(p['n'])


SYN = {'sig': ['sig', 'constsig'], 'noise': ['noise', 'noiz'], 'sp': ['sp', 'sampler'],
       'apfmsgain': ['apfmsgain', 'apfgain'], 'rhpf': ['rhpf', 'hpf'],
       'meta': ['meta', 'script'], 'msgsynth': ['msgsynth', 'msg_synth'],
       'psynth': ['psynth', 'p_synth', 'pattern_synth']}


def sym(s, st):
    return s        # the name of a sample includes its mark (a backslash or quotes)


def comp(c, st=None):
    st = st or Style()
    k = c['k']
    sp = st.sp()
    name = st.pick(*SYN.get(k, [k]))
    if 'raw' in c:
        return c['raw']
    if k in ('saw', 'squ', 'tri', 'sin', 'sig', 'imp', 'speed', 'mul', 'add', 'pan', 'delayms', 'onepole',
             'plate', 'bd', 'sn', 'hh'):
        return name + sp + par(c['p'], st)
    if k == 'delayn':
        return name + sp + (c['p']['r'] if 'r' in c['p'] else st.int(c['p']['n']))
    if k == 'noise':
        return name + sp + st.int(c['seed'])
    if k == 'choose':
        return name + ''.join(st.sp() + st.int(x) for x in c['list'])
    if k == 'get':
        return st.pick('', 'get' + sp) + c['p']['r']
    if k == 'mix':
        return name + ''.join(st.sp() + x for x in c['refs'])
    if k == 'balance':
        return name + sp + c['l'] + st.sp() + c['r']
    if k == 'arrange':
        return name + ''.join(st.sp() + s['r'] + st.sp() + st.num(s['n']) for s in c['secs'])
    if k == 'apfmsgain':
        return name + sp + par(c['p'], st) + st.sp() + st.num(c['g'])
    if k in ('lpf', 'rhpf'):
        if 'pat' in c:
            a = pattern([(st.num(x['v']), st.num(x['t'])) for x in c['pat']], c['span'], st)
        else:
            a = par(c['p'], st)
        return name + sp + a + st.sp() + st.num(c['q'])
    if k in ('envperc', 'sawsynth', 'squsynth', 'trisynth'):
        return name + sp + st.num(c['a']) + st.sp() + st.num(c['d'])
    if k == 'adsr':
        return name + ''.join(st.sp() + st.num(c[x]) for x in ('a', 'd', 's', 'rel'))
    if k == 'seq':
        return name + ''.join(st.sp() + step(x) for x in c['steps'])
    if k == 'sp':
        return name + sp + sym(c['name'], st)
    if k == 'psampler':
        return name + sp + pattern([(sym(x['name'], st), st.num(x['t'])) for x in c['pat']], c['span'], st)
    if k == 'psynth':
        t = ','.join('%s %d' % (num(x['t']), x['m']) for x in c['notes'])
        return name + sp + '`' + t + '`' + ('' if c['span'] == S and st.pick(False, True) else st.sp() + st.num(c['span']))
    if k == 'points':
        return points(c, st)
    if k == 'eval':
        return 'eval' + sp + '`' + ' '.join('%s := %s;' % (x['to'], expr(x['e'])) for x in c['code'][:-1]) + \
            expr(c['code'][-1]['e']) + '`'
    if k == 'meta':
        return name + sp + '`' + c.get('let', '') + script(c['code'], c.get('n', 0)) + '`'
    if k == 'msgsynth':
        return name + sp + c['name'] + st.sp() + st.num(c['a']) + st.sp() + st.num(c['d'])
    raise ValueError(k)


def expr(e, rhai=False):
    """an expression of eval, or of a script"""
    if 'n' in e:
        t = num(abs(e['n']))
        if rhai and '.' not in t:
            t += '.0'
        return '(-%s)' % t if e['n'] < 0 else t
    if 'v' in e:
        return 'input[i]' if rhai and e['v'] == 'in' else e['v']
    a = expr(e['a'], rhai)
    if e['op'] in ('/', '%'):
        return '(%s %s %d%s)' % (a, e['op'], e['by'], '.0' if rhai else '')
    if e['op'] == 'neg':
        return '(-%s)' % a
    if e['op'] == 'abs':
        return 'abs(%s)' % a
    return '(%s %s %s)' % (a, e['op'], expr(e['b'], rhai))


def script(code, n):
    if not code:
        return 'nosuchthing('
    body = ''.join('%s = %s; ' % (x['to'], expr(x['e'], True)) for x in code[:-1])
    return 'output.clear(); for i in 0..%d { %soutput.push(%s); } output' % (n, body, expr(code[-1]['e'], True))


def pattern(vts, span, st):
    sp = '' if span == S and st.pick(False, True) else st.num(span)
    return '"' + st.sp().join('%s@%s' % vt for vt in vts) + '"(' + sp + ')'


def step(ns):
    t = ''
    for i, x in enumerate(ns):
        if 'x' in x:
            t += '_'
        elif 'r' in x:
            t += x['r']
        else:
            t += ('+' if i and 'm' in ns[i - 1] else '') + str(x['m'])
    return t


def points(c, st):
    out = []
    for p in c['pts']:
        b = p['b'] * 8 // S
        if p['b'] * 8 % S == 0 and (b % 2 == 1 or st.pick(False, True)):
            t = '%d/8' % b if st.pick(True, False) else '%d / 16' % (2 * b)
        else:
            t = st.num(p['b'])
        if p['u']:
            t += st.pick(' ', '', '\n') + '+-'[p['d'] < 0] + st.pick(' ', '') + '%s_%s' % (num(abs(p['d'])), p['u'])
        out.append(t + st.pick(' => ', '=>', ' =>\n') + st.num(p['v']))
    t = st.pick('[', '[ ', '[\n') + st.pick(', ', ' ', '\n', ' | ').join(out) + st.pick(']', ' ]', '\n]')
    if c['span'] != S:
        t += st.pick('', ' ') + st.pick(*spans(c['span']))
    return t + (st.pick('', ' ') + '!' if c['loop'] else '')


def spans(v):
    """ways to write the span of points"""
    out = ['*' + num(v), '* ' + num(v), '/' + num(S * S // v), '*, ' + num(v), '*\n' + num(v), '/|' + num(S * S // v)]
    if v < S:
        out += ['*(1/%d)' % (S // v), '/ %d' % (S // v), '*(1 / %d)' % (S // v), '*\t(1,/|%d)' % (S // v)]
    return out


def comment(st):
    """a comment and the end of its line"""
    return '//' + st.pick('', ' o: sin 1 >> mul ~x', ' note: sin 1 >> mul ~x', ' one; two', '//', ' >> mul 0', ' "`(é日', '/', ' ~a: sig 1;') + \
        st.pick('\n', '\n', '\n\n')


def program(chains, st=None):
    st = st or Style()
    chains = list(chains)
    if st.r is not None:
        st.r.shuffle(chains)
    out = []
    for ch in chains:
        arrow = lambda: st.osp() + st.pick('', '\n' + st.pick('', st.osp())) + '>>' + st.osp()
        t = ch['name'] + st.pick('', st.osp()) + ':' + st.osp()
        t += comp(ch['nodes'][0], st)
        for c in ch['nodes'][1:]:
            if st.r is not None and st.r.random() < 0.08:
                # at the end of the line, or on a line of its own
                t += st.pick(' ', '\n', ' \n ', '') + comment(st) + st.pick('', ' ', '\t')
            t += arrow() + comp(c, st)
        t += st.pick('', ';', ' ;')
        out.append(t)
    if st.r is None:
        return '\n'.join(out)
    text = st.pick('', '\n', ' \n\n')
    for i, t in enumerate(out):
        text += st.pick('', '', comment(st))
        text += t + st.pick('\n', '\n\n', ' \n \n', ' ' + comment(st))
    if st.r.random() < 0.1:
        text += comment(st).rstrip('\n')
    return text
