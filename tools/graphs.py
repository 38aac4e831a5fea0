"""Histories of the synthesis library used directly."""
import random


def history(seed, i):
    r = random.Random(seed * 1000081 + i)
    cycles = r.random() < 0.4
    ops, live, n_slots, blocks = [], [], 0, 0
    heights = {}            # slots by height: connections only go up unless cycles are allowed

    def node():
        z = r.random()
        k = 'probe' if z < 0.7 else r.choice(['sum', 'sum2', 'pass'])
        return {'kind': k, 'ch': r.choice([1, 1, 2, 2, 2, 3, 4, 5]) if r.random() < 0.97 else r.choice([6, 8, 9, 17, 33]), 'v': r.randrange(0, 400)}

    def put(slot, kind):
        live.append(slot)
        heights[slot] = len(heights)

    def source(b):
        xs = [s for s in live if s != b and (cycles or b < 0 or heights[s] < heights[b])] + ([-2] if r.random() < 0.2 else [])
        if cycles and r.random() < 0.1:
            xs.append(b)
        return r.choice(xs) if xs else None

    for _ in range(r.choice([9, 17, 33, 40]) if r.random() < 0.05 else 0):     # a large graph
        nd = node()
        ops.append(dict(nd, op='add', boxed=nd['kind'] == 'probe' and r.random() < 0.3))
        put(n_slots, nd['kind'])
        if r.random() < 0.4:
            ops.append({'op': 'connect', 'a': n_slots, 'b': -1})
        n_slots += 1
    for _ in range(r.randrange(6, 22)):
        z = r.random()
        if z < 0.22 or len(live) < 2:
            nd = node()
            ops.append(dict(nd, op='add', boxed=nd['kind'] == 'probe' and r.random() < 0.3))
            put(n_slots, nd['kind'])
            n_slots += 1
        elif z < 0.46:
            b = r.choice(live + [-1, -1])
            a = source(b)
            if a is None or a == -1:
                continue
            if r.random() < 0.7:
                ops.append({'op': 'connect', 'a': a, 'b': b})
            else:
                ops.append({'op': 'order', 'a': a, 'b': b, 'pos': r.choice([0, 0, 1, 2, 2, 3, 4, 5, 9, 40])})
        elif z < 0.56:
            xs = sorted(r.sample(live, r.randrange(1, min(4, len(live)) + 1)), key=lambda s: heights[s])
            if cycles:
                r.shuffle(xs)
            if r.random() < 0.6:
                xs.append(-1)
            ops.append({'op': 'chain', 'list': xs})
        elif z < 0.64:
            ns = [node() for _ in range(r.randrange(1, 4))]
            ops.append({'op': r.choice(['chainboxed', 'nodechain']), 'nodes': ns})
            for nd in ns:
                put(n_slots, nd['kind'])
                n_slots += 1
            if r.random() < 0.6:
                ops.append({'op': 'connect', 'a': n_slots - 1, 'b': -1})
        elif z < 0.70:
            a = r.choice(live)
            live.remove(a)
            ops.append({'op': 'remove', 'a': a})
        elif z < 0.72:
            ops.append({'op': 'clear'})
        elif z < 0.77:
            ops.append({'op': 'msg', 'a': r.choice(live + [-1, -2]), 'pos': r.randrange(3), 'v': r.randrange(0, 400)})
        elif z < 0.80:
            ops.append({'op': 'all', 'pos': r.randrange(3), 'v': r.randrange(0, 400)})
        elif z < 0.83:
            ops.append({'op': 'forget', 'a': r.choice(live)})
        elif z < 0.86:
            ops.append({'op': 'setin', 'v': r.randrange(0, 300)})
        elif z < 0.87:
            ops.append({'op': 'reset'})
            live, heights = [], {}
        elif blocks < 6:
            blocks += 1
            ops.append({'op': 'block'})
    ops.append({'op': 'block'})
    h = {'id': 'g%d' % i, 'ch': r.choice([1, 2, 2, 3, 4]), 'ops': ops}
    if r.random() < 0.3:
        h['max'] = r.choice([0, 1, 2])
    return h


def readable(h):
    return ['%s %s' % (o['op'], {k: v for k, v in o.items() if k != 'op'}) for o in h['ops']]
