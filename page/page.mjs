// Runs histories on the two web pages of the repository: the page scripts and the audio worklet are the real
// ones, the browser around them and the compiled engine behind them are stand-ins that record what they are given.
//
//   node --experimental-vm-modules page.mjs <repo> <in.ndjson> <out.ndjson>
import fs from 'node:fs'
import path from 'node:path'
import vm from 'node:vm'

const repo = process.argv[2]
const settle = async () => { for (let i = 0; i < 3; i++) await new Promise(r => setImmediate(r)) }
const bytes = x => Array.from(x)
const enc = new TextEncoder()
const trouble = e => String(e.stack ?? e).slice(0, 200).replace(/[\n"\\]/g, ' ')
const utf = s => bytes(enc.encode(String(s)))

// ---------------------------------------------------------------- the engine behind the worklet
// What it answers is fixed: block k of sound is k*1000+i on the left and -(k*1000+i) on the right; code that
// starts with E1, E2 or E3 is refused, with the rest of its first line as the message.
class FakeEngine {
  constructor() { this.calls = []; this.blocks = 0; this.status = new Uint8Array(256) }
  note(c) { this.calls.push(c) }
  update(code) {
    this.note({ c: 'update', text: bytes(code) })
    const res = new Uint8Array(256)
    const m = /^\n*E([123]) ([^\n]*)/.exec(Buffer.from(code).toString('utf8'))
    if (m) {
      res[0] = Number(m[1])
      res.set(enc.encode(m[2]).slice(0, 254), 2)
    }
    return res
  }
  sound() {
    this.blocks += 1
    const out = new Float32Array(256)
    for (let i = 0; i < 128; i++) {
      out[i] = this.blocks * 1000 + i
      out[128 + i] = -(this.blocks * 1000 + i)
    }
    return out
  }
}

// the interface of the npm worklet: pointers into a memory that moves when it grows
function pointerExports(engine) {
  let memory = new WebAssembly.Memory({ initial: 1, maximum: 4000 })
  let top = 1024
  const take = n => {
    const p = top
    top += Math.ceil((n + 16) / 16) * 16
    while (top > memory.buffer.byteLength) memory.grow(1)
    return p
  }
  const u8 = (p, n) => new Uint8Array(memory.buffer, p, n)
  const f32 = (p, n) => new Float32Array(memory.buffer, p, n)
  let status = new Uint8Array(256)
  return {
    memory,
    alloc: n => take(n * 4),
    alloc_uint8array: n => take(n),
    update: (p, n) => { status = engine.update(u8(p, n).slice()) },
    send_msg: (p, n) => engine.note({ c: 'msg', text: bytes(u8(p, n)) }),
    set_bpm: v => engine.note({ c: 'bpm', v: Math.fround(v) }),
    set_track_amp: v => engine.note({ c: 'amp', v: Math.fround(v) }),
    live_coding_mode: v => engine.note({ c: 'live', v: v ? 1 : 0 }),
    set_sr: v => engine.note({ c: 'sr', v }),
    set_seed: () => engine.note({ c: 'seed' }),
    reset: () => engine.note({ c: 'reset' }),
    add_sample: (np, nl, sp, len, ch, sr) =>
      engine.note({ c: 'sample', name: bytes(u8(np, nl)), data: bytes(f32(sp, len)), ch: ch ?? -1, sr: sr ?? -1 }),
    process: (inp, out, size, result) => {
      engine.note({ c: 'process', in: inp === undefined ? [] : bytes(f32(inp, 128)) })
      f32(out, size).set(engine.sound().slice(0, size))
      u8(result, 256).set(status)
      status = new Uint8Array(256)
      // memory may move at any call
      if (engine.blocks % 3 === 0) memory.grow(1)
    },
  }
}

// the interface of the page in js/src: functions of a module
function moduleExports(engine) {
  return {
    initSync: () => {},
    default: () => {},
    set_sr: v => engine.note({ c: 'sr', v }),
    set_seed: () => engine.note({ c: 'seed' }),
    set_bpm: v => engine.note({ c: 'bpm', v: Math.fround(v) }),
    set_track_amp: v => engine.note({ c: 'amp', v: Math.fround(v) }),
    live_coding_mode: v => engine.note({ c: 'live', v: v ? 1 : 0 }),
    reset: () => engine.note({ c: 'reset' }),
    send_msg: s => engine.note({ c: 'msg', text: utf(s) }),
    add_sample: (name, data, ch, sr) =>
      engine.note({ c: 'sample', name: utf(name), data: bytes(Float32Array.from(data)), ch: ch ?? -1, sr: sr ?? -1 }),
    update: code => engine.update(Uint8Array.from(code)),
    process: size => {
      engine.note({ c: 'process', in: [] })
      return engine.sound().slice(0, size)
    },
  }
}

// ---------------------------------------------------------------- the browser
class World {
  constructor(h) {
    this.h = h
    this.logs = []
    this.toWorklet = []     // messages on their way
    this.toPage = []
    this.files = { ...(h.files ?? {}) }
    this.node = null
    this.processor = null
    this.engine = null
    this.errors = []
  }

  say(...a) { this.logs.push(utf(a.map(String).join(' '))) }

  base() {
    const w = this
    const console = {}
    for (const k of ['log', 'warn', 'error', 'info', 'table', 'clear', 'debug']) console[k] = (...a) => w.say(...a)
    return {
      console, TextEncoder, TextDecoder, setTimeout: f => { f(); return 0 }, clearTimeout: () => {},
      SharedArrayBuffer: this.h.page === 'npm-port' ? undefined : SharedArrayBuffer,
      structuredClone,
    }
  }

  buffer(f) {
    return { numberOfChannels: f.ch, length: f.data.length / f.ch, sampleRate: f.sr,
      getChannelData: c => Float32Array.from(f.data.slice(c * f.data.length / f.ch, (c + 1) * f.data.length / f.ch)) }
  }

  pageGlobals() {
    const w = this
    class Blob { constructor(parts) { this.text = parts.join('') } }
    class Request { constructor(u) { this.url = u } }
    class AudioContext {
      constructor() {
        this.destination = {}
        this.sampleRate = w.h.sr
        this.state = 'running'
        this.closed = false
        this.audioWorklet = { addModule: async u => { w.module = u } }
      }
      suspend() { this.state = 'suspended' }
      resume() { this.state = 'running' }
      async close() { this.closed = true }
      createChannelSplitter() { return { connect() {} } }
      createChannelMerger() { return { connect() {} } }
      createAnalyser() { return { connect() {} } }
      async decodeAudioData(buf, ok) { ok(w.buffer(buf)) }
    }
    class AudioWorkletNode {
      constructor(ctx, name, options) {
        w.node = this
        w.toWorklet.length = 0
        w.toPage.length = 0
        this.port = { onmessage: null, postMessage: m => w.toWorklet.push(m) }
        w.startWorklet(name, options)
      }
      connect() {}
    }
    return {
      ...this.base(), Blob, Request, AudioContext, AudioWorkletNode,
      URL: { createObjectURL: b => b }, navigator: { userAgent: this.h.page === 'npm-port' ? 'Version/16 Safari/605' : 'Chrome/120.0', platform: 'Linux' },
      fetch: async u => {
        const url = String(u.url ?? u)
        const name = url.split('/').pop()
        return {
          text: async () => name.endsWith('.js') ? fs.readFileSync(path.join(repo, 'js/src', name), 'utf8') : '',
          json: async () => name === 'sample-list.json' ? Object.fromEntries(Object.keys(w.files).map(k => [k, 1])) : {},
          arrayBuffer: async () => w.files[name.replace('.wav', '')] ?? {},
        }
      },
      // the dialog in which files are picked
      document: { getElementById: () => null,
        createElement: () => ({ click() { w.picking = Promise.resolve(this.onchange({ target: { files: w.picked } })) } }) },
      FileReader: class { readAsArrayBuffer(f) { this.onload({ target: { result: f.sound } }) } },
      requestAnimationFrame: () => {},
    }
  }

  workletGlobals() {
    const w = this
    class AudioWorkletProcessor {
      constructor() { this.port = { onmessage: null, postMessage: m => w.toPage.push(structuredClone(m)) } }
    }
    this.engine = new FakeEngine()
    return {
      ...this.base(), AudioWorkletProcessor, sampleRate: this.h.sr,
      registerProcessor: (name, c) => { w.registered = { name, c } },
      WebAssembly: { instantiate: async () => ({ instance: { exports: pointerExports(w.engine) } }) },
    }
  }

  startWorklet(name, options) {
    // runs when the module has been evaluated
    const start = () => { this.processor = new this.registered.c(options) }
    if (this.h.page === 'src') this.starting = this.srcWorklet().then(start)
    else {
      const ctx = vm.createContext(this.workletGlobals())
      vm.runInContext(this.module.text, ctx)
      start()
    }
  }

  async srcWorklet() {
    const ctx = vm.createContext(this.workletGlobals())
    const ex = moduleExports(this.engine)
    const m = new vm.SourceTextModule(fs.readFileSync(path.join(repo, 'js/src/glicol-engine.js'), 'utf8'), { context: ctx })
    await m.link(() => {
      const s = new vm.SyntheticModule(Object.keys(ex), function () { for (const k in ex) this.setExport(k, ex[k]) }, { context: ctx })
      return s
    })
    await m.evaluate()
  }

  async load() {
    const g = this.pageGlobals()
    this.ctx = vm.createContext(g)
    g.window = g
    if (this.h.page === 'src') {
      g.eval = s => vm.runInContext(s, this.ctx)
      vm.runInContext(fs.readFileSync(path.join(repo, 'js/src/glicol.js'), 'utf8'), this.ctx)
      this.page = g
    } else {
      const load = spec => {
        if (spec.includes('wasm')) {
          const s = new vm.SyntheticModule(['default'], function () { this.setExport('default', 'x/glicol_wasm.wasm') }, { context: this.ctx })
          return s
        }
        const f = path.join(repo, 'js/npm', spec.endsWith('.js') ? spec : spec + '.js')
        const text = fs.readFileSync(f, 'utf8')
        return new vm.SourceTextModule(text, { context: this.ctx, identifier: f })
      }
      const m = load('index')
      const cache = {}
      await m.link(s => cache[s] ??= load(s))
      await m.evaluate()
      this.builder = m.namespace
      this.page = new m.namespace.default({ isLiveCoding: this.h.live === 1, onLoaded: () => { this.loaded = true } })
    }
    await settle()
    // a sample that is there before the engine is
    if (this.h.early) await this.op(this.h.early)
    // the handshake
    for (let i = 0; i < 6; i++) {
      await this.deliver(99)
      await this.back(99)
    }
  }

  async deliver(k) {
    await this.starting
    for (; k > 0 && this.toWorklet.length; k--) {
      const m = this.toWorklet.shift()
      await this.processor.port.onmessage({ data: structuredClone(m) })
      await settle()
    }
  }

  async back(k) {
    for (; k > 0 && this.toPage.length; k--) {
      await this.node.port.onmessage({ data: this.toPage.shift() })
      await settle()
    }
  }

  async op(o) {
    const p = this.page
    const src = this.h.page === 'src'
    switch (o.op) {
      case 'run': await p.run(Buffer.from(o.text).toString('utf8')); break
      case 'msg': p.sendMsg(Buffer.from(o.text).toString('utf8')); break
      case 'bpm': p.setBPM(o.v); break
      case 'amp': p.trackAmp(o.v); break
      case 'live': p.liveCodingMode(o.v === 1); break
      case 'empty': await p.stop(); break
      case 'restart': await p.stop(); await settle(); for (let i = 0; i < 6; i++) { await this.deliver(99); await this.back(99) } break
      case 'sample': {
        const name = Buffer.from(o.name).toString('utf8')
        if (o.how === 'url') {
          this.files[name] = o
          await p.addSampleFiles(name, 'http://x/' + name + '.wav')
        } else p.addSampleFromDataArray(name, Float32Array.from(o.data), o.ch, o.data.length / o.ch, o.sr)
        break
      }
      case 'pick': case 'folder': {
        const text = x => Buffer.from(x).toString('utf8')
        this.picked = o.files.map(f => o.op === 'pick' ? { name: text(f.name) + f.ext, sound: f }
          : { name: 'x' + f.ext, webkitRelativePath: 'top/' + text(f.name) + '/x' + f.ext, type: f.audio ? 'audio/wav' : 'text/plain', sound: f })
        await (o.op === 'pick' ? p.addSampleFiles() : p.addSampleFolder())
        await this.picking
        break
      }
      case 'build': {
        // chains written with the functions of the package
        const what = {}
        for (const c of o.chains) {
          let x = null
          for (const [f, ...args] of c.calls) x = x === null ? this.builder[f](...args) : x[f](...args)
          what[c.name] = x
        }
        p.play(what)
        await this.deliver(99)
        break
      }
      case 'deliver': await this.deliver(o.k); break
      case 'back': await this.back(o.k); break
      case 'tick': {
        const out = [[new Float32Array(128), new Float32Array(128)]]
        this.processor.process([o.in ? [Float32Array.from(o.in), ...Array.from({ length: o.more ?? 0 }, (_, k) => new Float32Array(128).fill(k + 2))] : []], out, {})
        o = { out }
        await settle()
        return { l: bytes(out[0][0]), r: bytes(out[0][1]) }
      }
      default: throw new Error('harness: op ' + o.op)
    }
    await settle()
    return {}
  }

  take() {
    const r = { calls: this.engine ? this.engine.calls : [], logs: this.logs }
    if (this.engine) this.engine.calls = []
    this.logs = []
    return r
  }
}

async function history(h) {
  const ev = []
  const head = { id: h.id, page: h.page, sr: h.sr, live: h.live ?? 0, known: h.known ?? [] }
  const w = new World(h)
  try {
    await w.load()
    ev.push({ op: 'load', ...w.take() })
  } catch (e) {
    if (String(e.message).startsWith('harness:')) throw e
    ev.push({ op: 'load', panic: trouble(e) })
    return { ...head, ev }
  }
  for (const o of h.ops) {
    let r
    try {
      r = { ...await w.op(o), ...w.take() }
    } catch (e) {
      if (String(e.message).startsWith('harness:')) throw e
      r = { panic: trouble(e) }
    }
    ev.push({ ...o, ...r })
    if (r.panic) break
  }
  return { ...head, ev }
}

process.on('unhandledRejection', () => {})
const lines = fs.readFileSync(process.argv[3], 'utf8').split('\n').filter(Boolean)
const out = fs.openSync(process.argv[4], 'w')
for (const l of lines) fs.writeSync(out, JSON.stringify(await history(JSON.parse(l))) + '\n')
fs.closeSync(out)
process.exit(0)
