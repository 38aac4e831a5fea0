// One side of the queue: a thread that performs its operations, one shared-memory access at a time, when it is its turn.
import { parentPort, workerData } from 'worker_threads'

const { control, me, source } = workerData
const ctl = new Int32Array(control)
// layout of the control block, see drive.mjs
const TURN = 1, STATE = 2 + me, SEQ = 4

let active = false      // inside of a scheduled run
let seq = 0

// gives the turn back and waits for the next one
function step() {
    if (!active) return
    Atomics.store(ctl, STATE, 1)
    Atomics.store(ctl, TURN, -1)
    Atomics.notify(ctl, TURN)
    await_turn()
}

function await_turn() {
    for (;;) {
        const t = Atomics.load(ctl, TURN)
        if (t === me) break
        Atomics.wait(ctl, TURN, t)
    }
    seq = Atomics.add(ctl, SEQ, 1)
}

const real = {
    load: Atomics.load, store: Atomics.store, add: Atomics.add, sub: Atomics.sub, exchange: Atomics.exchange,
    compareExchange: Atomics.compareExchange, and: Atomics.and, or: Atomics.or, xor: Atomics.xor,
}
const inner = new WeakMap()     // the real array behind a watched one
const unwrap = a => inner.get(a) ?? a
for (const name of Object.keys(real)) {
    Atomics[name] = (array, ...rest) => {
        if (array.buffer !== control) step()
        return real[name](unwrap(array), ...rest)
    }
}

// typed arrays over the queue's memory whose single elements are accessed one turn at a time
function watched(Type) {
    const handler = {
        get(target, key) {
            if (typeof key === 'string' && /^\d+$/.test(key)) {
                step()
                return target[key]
            }
            const v = target[key]
            if (typeof v === 'function') {
                return (...args) => {
                    step()
                    return v.apply(target, args.map(unwrap))
                }
            }
            return v
        },
        set(target, key, value) {
            if (typeof key === 'string' && /^\d+$/.test(key)) step()
            target[key] = value
            return true
        },
    }
    const C = class extends Type {
        constructor(...args) {
            super(...args)
            const p = new Proxy(this, handler)
            inner.set(p, this)
            return p
        }
        static get [Symbol.species]() { return Type }
    }
    Object.defineProperty(C, 'name', { value: Type.name })
    return C
}

const ring = await import(source)
const Bytes = watched(Uint8Array)
// the pointers too, should they be accessed without Atomics
globalThis.Uint32Array = watched(Uint32Array)
globalThis.Int32Array = watched(Int32Array)

function perform(rb, writer, reader, op) {
    const buf = op.n !== undefined ? new Uint8Array(op.n) : null
    switch (op.k) {
    case 'push': return { r: rb.push(Uint8Array.from(op.b)) }
    case 'enqueue': return { r: writer.enqueue(Uint8Array.from(op.b)) }
    case 'pop': { const r = rb.pop(buf); return { r, b: Array.from(buf.slice(0, r)) } }
    case 'dequeue': { const r = reader.dequeue(buf); return { r, b: Array.from(buf.slice(0, r)) } }
    case 'empty': return { r: rb.empty() ? 1 : 0 }
    case 'full': return { r: rb.full() ? 1 : 0 }
    case 'space': return { r: rb.available_write() }
    case 'wspace': return { r: writer.available_write() }
    case 'count': return { r: rb.available_read() }
    case 'rcount': return { r: reader.available_read() }
    }
    throw new Error('harness: operation ' + op.k)
}

parentPort.on('message', ({ sab, ops }) => {
    const events = []
    let rb, writer, reader, failed = null
    try {
        rb = new ring.RingBuffer(sab, Bytes)
        writer = new ring.TextParameterWriter(rb)
        reader = new ring.TextParameterReader(rb)
    } catch (e) {
        failed = String(e)
    }
    active = true
    await_turn()
    for (const op of failed ? [] : ops) {
        step()
        events.push({ at: seq, e: 'call', ...op })
        let out
        try {
            out = perform(rb, writer, reader, op)
        } catch (e) {
            failed = String(e)
            break
        }
        step()
        events.push({ at: seq, e: 'ret', k: op.k, ...out })
    }
    active = false
    parentPort.postMessage({ events, failed })
    real.store(ctl, STATE, 2)
    real.store(ctl, TURN, -1)
    Atomics.notify(ctl, TURN)
})
parentPort.postMessage('ready')
