// Runs one session of calls against the WebAssembly module, and records what
// is called back: node host.js wasm_exec.js keyaddr.wasm session.json out.json
const fs = require('fs')
const [, , execJS, wasm, sessionFile, outFile] = process.argv
require(execJS)
const session = JSON.parse(fs.readFileSync(sessionFile))

const out = { results: [], exited: false, exitedAt: -1, handler: [], late: 0, sentinel: null, names: [], unhandled: [] }
let started = 0
const finish = () => {
  fs.writeFileSync(outFile, JSON.stringify(out))
  process.exit(0)
}
// timers of the Go runtime may fire after the program has ended, which is judged by itself
process.on('uncaughtException', e => /Go program has already exited/.test(String(e)) || out.unhandled.push(String(e && e.stack || e).slice(0, 2000)))
process.on("unhandledRejection", e => { out.unhandled.push(String(e && e.stack || e).slice(0, 2000)) })

const lines = []
console.log = (...a) => { if (lines.length < 50) lines.push(a.map(String).join(' ')) }
console.error = console.warn = console.log

const custom = msg => { out.handler.push({ at: current, msg: typeof msg === 'string' ? msg : '(' + typeof msg + ')' }) }
let current = -1
if (session.handler === 'before') globalThis.KeyaddrErrorHandler = custom
if (session.level !== undefined) globalThis.KeyaddrLogLevel = session.level

const value = (a, i) => {
  switch (a.t) {
    case 's': return a.v
    case 'n': return Number(a.v)
    case 'u': return undefined
    case 'null': return null
    case 'b': return a.v === 'true'
    case 'o': return { key: a.v }
    case 'a': return [a.v]
    case 'sym': return Symbol(a.v)
    case 'big': return BigInt(a.v)
    case 'f': return () => { out.results[i].inner++ }
    case 'date': return new Date(0)
    case 're': return /x/
    case 'bytes': return new Uint8Array([1, 2, 3])
    case 'sur': return 'a\ud800' + a.v
    case 'str': return new String(a.v)
    case 'num': return new Number(a.v)
    case 'proxy': return new Proxy({}, {})
    case 'bare': return Object.create(null)
  }
  throw new Error('type ' + a.t)
}
const plain = v => {
  if (v === undefined) return { t: 'u' }
  if (v === null) return { t: 'null' }
  if (typeof v === 'string') return { t: 's', v }
  if (typeof v === 'boolean') return { t: 'b', v: String(v) }
  if (typeof v === 'number') return { t: 'n', v: String(v) }
  if (v instanceof Error) return { t: 'error', v: String(v.message) }
  if (typeof v === 'object') return { t: 'o', v: JSON.stringify(v) }
  return { t: typeof v }
}
const callback = (i, kind, then) => {
  const record = (...a) => {
    const r = out.results[i]
    r.calls++
    r.n = a.length
    if (r.calls === 1) { r.err = plain(a[0]); r.val = plain(a[1]) }
    if (then && r.calls === 1) then()
  }
  switch (kind) {
    case 'function': return function (...a) { record(...a) }
    case 'async': return async (...a) => { record(...a) }
    case 'bound': return record.bind(null)
    case 'proxy': return new Proxy(record, {})
    case 'one': return function (e) { record(...arguments) }
    case 'two': return function (e, v) { record(...arguments) }
    case 'three': return function (e, v, w) { record(...arguments) }
    case 'method': return { done (e, v) { record(...arguments) } }.done
    case 'returns': return (...a) => { record(...a); return 10 }
    case 'object': return Object.assign((...a) => { record(...a) }, { apply: 3, name2: 'x' })
  }
  return record
}
// a callback argument is {t: 'cb', v: kind}
const issue = (i, then) => {
  const c = session.calls[i]
  const r = out.results[i] = { calls: 0, inner: 0, handler: 0 }
  const args = (c.args || []).map(a => a.t === 'cb' ? callback(i, a.v, then) : value(a, i))
  const before = out.handler.length
  const was = current
  current = i
  started++
  try {
    const ret = globalThis.KeyaddrNS[c.fn].apply(c.self ? { x: 1 } : globalThis.KeyaddrNS, args)
    if (ret !== undefined && ret !== null) r.ret = String(ret)
  } catch (e) {
    r.threw = String(e)
  }
  current = was
  r.handler = out.handler.length - before
  if (out.exited && out.exitedAt < 0) out.exitedAt = i
}
const sleep = ms => new Promise(r => setTimeout(r, ms))
const waitFor = async (ok, ms) => {
  const t = Date.now()
  while (!ok() && !out.exited && Date.now() - t < ms) await sleep(5)
  return ok()
}
// The module runs between the turns of this thread, however slow the machine:
// a call without a callback after so many turns has none.
const turns = async ok => {
  for (let n = missing ? 200 : 4000; n > 0 && !ok() && !out.exited; n--) await sleep(5)
  if (!ok() && !out.exited) missing++
}
let missing = 0

;(async () => {
  const go = new Go()
  // what the module prints when it panics
  const real = fs.writeSync
  fs.writeSync = (fd, buf, ...rest) => {
    if (fd === 1 || fd === 2) { if (lines.length < 200) lines.push(Buffer.from(buf).toString()); return buf.length }
    return real(fd, buf, ...rest)
  }
  const done = () => { fs.writeSync = real; out.lines = lines.slice(-40); finish() }
  const r = await WebAssembly.instantiate(fs.readFileSync(wasm), go.importObject)
  go.exit = code => { out.exitCode = code }
  go.run(r.instance).then(() => { out.exited = true }, e => { out.exited = true; out.unhandled.push(String(e)) })
  await waitFor(() => globalThis.KeyaddrNS !== undefined, 60000)
  if (globalThis.KeyaddrNS === undefined) { out.unhandled.push('KeyaddrNS is missing'); return done() }
  await sleep(20)
  out.names = Object.keys(globalThis.KeyaddrNS).sort()
  if (session.handler === 'after') globalThis.KeyaddrErrorHandler = custom
  const n = session.calls.length
  let i = 0
  while (i < n && !out.exited && missing < 10) {
    const b = session.calls[i].batch || 1
    if (session.calls[i].nested) {
      // each call is made from within the callback of the one before
      const end = Math.min(n, i + b)
      let k = i
      const step = () => { k++; if (k < end) issue(k, step) }
      issue(i, step)
      await turns(() => k >= end)
      while (k < end - 1) issue(++k)
      i = end
    } else {
      const end = Math.min(n, i + b)
      const from = i
      for (; i < end; i++) issue(i)
      await turns(() => {
        for (let k = from; k < end; k++) if (!out.results[k].calls && !session.calls[k].silent) return false
        return true
      })
      if (out.exited && out.exitedAt < 0) out.exitedAt = i - 1
    }
    if (i % 64 === 0) await sleep(0)
  }
  out.stopped = missing >= 10
  await sleep(150)
  // the module is still there
  if (!out.exited) {
    out.sentinel = await Promise.race([
      new Promise(res => { try { globalThis.KeyaddrNS.wordsFromPrefix('en', 'zo', 0, (e, v) => res(String(v))) } catch (e) { res('threw ' + e) } }),
      sleep(60000).then(() => 'no callback')
    ])
    if (session.exit) {
      const x = out.exit = { calls: 0, before: out.exited }
      try { globalThis.KeyaddrNS.exit((e, v) => { x.calls++; x.err = plain(e); x.val = plain(v) }) } catch (e) { x.threw = String(e) }
      await waitFor(() => out.exited, 20000)
      x.after = out.exited
    }
  }
  done()
})().catch(e => { process.stderr.write("host: " + e.stack); process.exit(3) })
