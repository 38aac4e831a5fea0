"""Histories of the two web pages: what is asked of them, when messages arrive, when blocks are due."""
import random


def b(s):
    return list(s.encode())


CODES = ['o: sin 440', 'o: saw 110 >> mul 0.1;\n~a: imp 1', '', ' ', '\n', 'o: seq 60 >> sp \\bd // höher', 'o: sin 1\r\n', 'é', 'x' * 40,
         'o: sin 440 // in c#4\n', '# one', 'a: b # c # d', '## no script']
# scripts in the code of the editor and what they stand for
SCRIPTS = [('`sin ${220 * 2}`', 'sin 440'), ('1 + 1', '2'), ('return "saw " + 3;', 'saw 3'), ('undefined', ''), ('nosuchvariable', ''),
           ('let a = 5;\nreturn a * a', '25'), ('"a"', 'a'), ('', ''), ('[1,2].join(" ")', '1 2'), ('0', '0'), ('null', 'null')]
MESSAGES = ['o,0,0,440', 'o,0,0,440;', '~a,1,0,0.5; o,0,0,2;', '', ';', 'o,0,0,1;;', 'é,0,0,1',
            '~a,1,0,0.5;o,0,0,2', ';o,0,0,2', '~a,1,0,0.5; o,0,0,2; ']
# files and folders picked by the user
FILES = ['Kick', 'snare 01', 'hi-hat-open', 'C#3', 'a-b c#d-E f#G', 'x', 'a very long name of a file of ours', 'ümlaut', 'take.2', '-']


def history(seed, i):
    r = random.Random(seed * 1000003 + i)
    page = r.choice(['npm-sab', 'npm-sab', 'npm-port', 'src', 'src'])
    src = page == 'src'
    h = {'id': 'p%d' % i, 'page': page, 'sr': r.choice([44100, 48000, 96000]), 'known': [], 'ops': []}
    names = ['bd', 'kick_1', 'x9', 's_a_b', 'long' * 20]

    def sound():
        ch = r.choice([1, 1, 2])
        return {'data': [r.randrange(-9, 10) for _ in range(ch * r.choice([1, 2, 5, 300]))], 'ch': ch, 'sr': r.choice([44100, 48000, 8000])}

    if src and r.random() < 0.7:
        h['files'] = {k: sound() for k in r.sample(['808bd', 'hi-hat', 'cb'], r.randrange(1, 4))}
        h['known'] = [dict(v, c='sample', name=b('\\' + k.replace('-', '_', 1))) for k, v in h['files'].items()]
    if not src:
        h['live'] = r.randrange(2)
        if r.random() < 0.15:
            h['early'] = dict(sound(), op='sample', how='url', name=b(r.choice(['bd', 'Kick', 'hi-hat', 'a-b-c'])))
            # under its own name, and again under that of the samples the page brings when the engine asks for them
            nm = bytes(h['early']['name']).decode()
            h['known'] = [dict({k: h['early'][k] for k in ('data', 'ch', 'sr')}, c='sample', name=b('\\' + x))
                          for x in sorted({nm, nm.replace('-', '_', 1)})]
    ops = h['ops']
    used = {bytes(k['name'][1:]).decode() for k in h['known']}

    def code():
        z = r.random()
        if z < 0.1:
            return r.choice(['o: sin 440 >> mul ~a\n', 'abc ', 'x']) * r.choice([30, 200, 683, 1000])
        return '\n'.join(r.choice(CODES) for _ in range(r.choice([1, 1, 2, 3])))

    def run():
        if src and r.random() < 0.4:
            pieces = []
            for _ in range(r.randrange(1, 5)):
                if r.random() < 0.5:
                    js, v = r.choice(SCRIPTS)
                    pieces.append(('##' + js + '#', v))
                else:
                    t = r.choice(['o: sin 440 >> mul ', '\n~a: ', ' ', ';\n', 'o: imp 1 // c'])
                    pieces.append((t, t))
            return {'op': 'run', 'text': b(''.join(t for t, _ in pieces)), 'pieces': [{'v': b(v)} for _, v in pieces]}
        t = code()
        while src and '##' in t and '#' in t.split('##', 1)[1]:
            t = code()
        return {'op': 'run', 'text': b(t)}

    def flush():
        return [{'op': 'deliver', 'k': 99}, {'op': 'tick'}, {'op': 'back', 'k': 99}]

    for _ in range(r.randrange(3, 14)):
        z = r.random()
        if z < 0.3:
            ops.append(run())
        elif z < 0.4 and not src:
            ops.append({'op': 'msg', 'text': b(r.choice(MESSAGES) * r.choice([1, 1, 1, 1, 60, 300]))})
        elif z < 0.48:
            ops.append({'op': 'bpm', 'v': r.choice([60, 120, 240, 1, 0, 999, 1000, 30000, -60])})
        elif z < 0.52:
            ops.append({'op': 'amp', 'v': r.choice([0, 1, 2])} if src else {'op': 'live', 'v': r.randrange(2)})
        elif z < 0.6:
            free = [n for n in names if n not in used]
            if r.random() < 0.4:
                fs = r.sample([f for f in FILES if f not in used], min(r.choice([1, 1, 2, 3]), len(FILES) - len(used & set(FILES))))
                used |= set(fs)
                if src and r.random() < 0.5:
                    fs = [f for f in fs for _ in range(r.choice([1, 2, 3, 3, 12]))]
                    r.shuffle(fs)
                    ops.append({'op': 'folder', 'files': [dict(sound(), name=b(f), ext='.wav', audio=int(r.random() < 0.8)) for f in fs]})
                else:
                    ops.append({'op': 'pick', 'files': [dict(sound(), name=b(f), ext=r.choice(['.wav', '.mp3', '.WAV', ''])) for f in fs]})
            elif free:
                nm = r.choice(free)
                used.add(nm)
                ops.append(dict(sound(), op='sample', how='url' if src else r.choice(['url', 'array']), name=b(nm)))
        elif z < 0.64:
            if src:
                ops.append({'op': 'restart'})
            else:
                # what is run in order to stop is not to be mixed up with other code
                ops += flush() + [{'op': 'empty'}] + flush()
        elif z < 0.74:
            # code that is refused
            ops += flush()
            if r.random() < 0.5:
                text = 'There is no sample named \\' + 'x' * r.choice([1, 20, 228, 229, 400])
                ops += [{'op': 'run', 'text': b('E%d %s' % (r.choice([2, 3]), text) + r.choice(['', '\no: sin 1']))}] + flush()
            else:
                lines = [r.choice(['o: sin 440', '~a: seqq 1 >> mul 1', '', '>> mul 0.5', 'b: nosuch 1', 'o: sin']) for _ in range(r.randrange(0, 5))]
                line = r.randrange(1, len(lines) + 2)
                pos = r.choice(['node', 'EOI, mul, add', ', '.join('rule_%d' % k for k in range(r.choice([3, 30, 60]))), ''])
                neg = r.choice(['', 'node_name', ', '.join('no_%d' % k for k in range(40))])
                col = r.randrange(1, 2 + (len(lines[line - 2]) if line > 1 else 30))
                above = r.choice([0, 0, 1, 3])
                line += above
                first = '\n' * above + 'E1 pos[%d], line[%d], col[%d], positives[%s], negatives[%s]' % (r.randrange(50), line, col, pos, neg)
                ops += [{'op': 'run', 'text': b('\n'.join([first] + lines))}] + flush()
                ops[-1]['at'] = {'line': line, 'col': col, 'where': b('line %d' % line)}
        elif z < 0.77:
            # code and messages that leave little room, or none, in a queue
            left = r.choice([0, 1, 2, 5, 100, 400, 512, 600])
            ops += flush() + [{'op': 'run', 'text': b('y' * (2048 - left))}, run()]
            if not src and r.random() < 0.5:
                ops += [{'op': 'msg', 'text': b('o,0,0,' + '1' * (2041 - left))}, {'op': 'msg', 'text': b(r.choice(MESSAGES))}]
        elif z < 0.8:
            ops.append({'op': 'deliver', 'k': r.choice([1, 1, 2, 99])})
        elif z < 0.85:
            ops.append({'op': 'back', 'k': r.choice([1, 2, 99])})
        else:
            t = {'op': 'tick'}
            if r.random() < 0.3:
                t['in'] = [r.randrange(-9, 10) for _ in range(128)]
                t['more'] = r.choice([0, 0, 1, 3])      # channels; only the first is heard
            ops.append(t)
    ops += flush()
    return h


def readable(h):
    out = ['page %s' % h['page']]
    for o in h['ops']:
        out.append(o['op'] + ' ' + (bytes(o['text']).decode(errors='replace')[:200] if 'text' in o else
                                    bytes(o['name']).decode() if 'name' in o else
                                    ', '.join(bytes(f['name']).decode() for f in o['files']) if 'files' in o else str(o.get('v', o.get('k', '')))))
    return out
