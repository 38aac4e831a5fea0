// Runs cases on the real queue code with two threads and a given or enumerated schedule.
//   node drive.mjs CASES OUT SOURCE
// A case: {id, cap, pre: [ops done before], p: [ops], c: [ops], mode: 'all' (every interleaving, at most `limit`) or
// 'random' with `runs` and `seed`}.  One line per different run: {id, cap, ev: [...]}; runs with the same events are merged.
import { Worker } from 'worker_threads'
import fs from 'fs'
import path from 'path'
import { fileURLToPath, pathToFileURL } from 'url'

const [cases, out, source] = process.argv.slice(2)
const here = path.dirname(fileURLToPath(import.meta.url))
const ring = await import(pathToFileURL(source))
const control = new SharedArrayBuffer(64)
const ctl = new Int32Array(control)
const TURN = 1, SEQ = 4      // 2 and 3: state of the sides, 1 = waiting for its turn, 2 = finished

const sides = []
for (const me of [0, 1]) {
    const w = new Worker(path.join(here, 'side.mjs'), { workerData: { control, me, source: pathToFileURL(source).href } })
    await new Promise(r => w.once('message', r))
    sides.push(w)
}

function random(seed) {
    let s = (seed * 2654435761 + 88675123) >>> 0
    return () => {
        s ^= s << 13; s >>>= 0
        s ^= s >>> 17
        s ^= s << 5; s >>>= 0
        return s / 4294967296
    }
}

// one run; choose(i, both) gives the side for step i.  Result: {trace: [side, both][], events, failed}
async function run(c, choose) {
    const sab = ring.RingBuffer.getStorageForCapacity(c.cap, Uint8Array)
    const rb = new ring.RingBuffer(sab, Uint8Array)
    for (const op of c.pre) {
        // advances both pointers before the threads start
        rb.push(new Uint8Array(op))
        rb.pop(new Uint8Array(op))
    }
    if (c.fill.length) rb.push(Uint8Array.from(c.fill))
    for (const i of [0, 1]) Atomics.store(ctl, 2 + i, 1)
    Atomics.store(ctl, SEQ, 0)
    Atomics.store(ctl, TURN, -1)
    const answers = [0, 1].map(i => new Promise(r => sides[i].once('message', r)))
    sides[0].postMessage({ sab, ops: c.p })
    sides[1].postMessage({ sab, ops: c.c })
    const trace = []
    const deadline = Date.now() + 20000
    for (let i = 0; ; i++) {
        const on = [0, 1].filter(x => Atomics.load(ctl, 2 + x) !== 2)
        if (on.length === 0) break
        const side = on.length === 1 ? on[0] : choose(trace.length)
        if (on.length === 2) trace.push(side)
        Atomics.store(ctl, TURN, side)
        Atomics.notify(ctl, TURN)
        while (Atomics.load(ctl, TURN) !== -1) {
            if (Atomics.wait(ctl, TURN, side, 20000) === 'timed-out') {
                return { trace, events: [], failed: 'does not return' }
            }
        }
        if (i > 100000 || Date.now() > deadline) return { trace, events: [], failed: 'does not return' }
    }
    const [a, b] = await Promise.all(answers)
    const events = [...a.events.map(e => ({ ...e, s: 'p' })), ...b.events.map(e => ({ ...e, s: 'c' }))]
    events.sort((x, y) => x.at - y.at)
    events.forEach(e => delete e.at)
    return { trace, events, failed: a.failed || b.failed }
}

const fd = fs.openSync(out, 'w')
let stop = false
for (const line of fs.readFileSync(cases, 'utf8').split('\n').filter(x => x)) {
    const c = JSON.parse(line)
    const seen = new Map()
    let runs = 0, complete = false
    const note = r => {
        runs++
        const key = JSON.stringify([r.events, r.failed])
        if (!seen.has(key)) seen.set(key, { ...r, count: 0 })
        seen.get(key).count++
        if (r.failed === 'does not return') stop = true
    }
    if (c.mode === 'fixed') {
        note(await run(c, i => c.schedule[i] ?? 0))
    } else if (c.mode === 'all') {
        let prefix = []
        while (runs < c.limit && !stop) {
            const r = await run(c, i => i < prefix.length ? prefix[i] : 0)
            note(r)
            let k = r.trace.length - 1
            while (k >= 0 && r.trace[k] === 1) k--
            if (k < 0) { complete = true; break }
            prefix = [...r.trace.slice(0, k), 1]
        }
    } else {
        const rnd = random(c.seed)
        for (let i = 0; i < c.runs && !stop; i++) {
            const bias = rnd(), sticky = rnd() * 0.9
            let last = 0
            note(await run(c, () => last = rnd() < sticky ? last : rnd() < bias ? 0 : 1))
        }
    }
    let n = 0
    for (const r of seen.values()) {
        fs.writeSync(fd, JSON.stringify({
            id: `${c.id}.${n++}`, case: c.id, cap: c.cap, ev: r.events, failed: r.failed, schedule: r.trace, runs: r.count,
        }) + '\n')
    }
    fs.writeSync(fd, JSON.stringify({ summary: c.id, runs, complete, distinct: seen.size }) + '\n')
    if (stop) break
}
fs.closeSync(fd)
process.exit(0)
