'use strict'
// One installation by the real lib/install.js, from a server on the loopback that answers as told.
const fs = require('fs')
const os = require('os')
const path = require('path')
const http = require('http')
const crypto = require('crypto')
const tar = require('tar')
const gfs = require('graceful-fs').promises
const real = { writeFile: gfs.writeFile, mkdir: gfs.mkdir, copyFile: gfs.copyFile, rename: gfs.rename }
const sha = (b) => crypto.createHash('sha256').update(b).digest('hex')

async function pack (dir, top, files) {
  fs.rmSync(path.join(dir, 'src'), { recursive: true, force: true })
  for (const [n, c] of files) {
    const f = path.join(dir, 'src', top, n)
    fs.mkdirSync(path.dirname(f), { recursive: true })
    fs.writeFileSync(f, c)
  }
  fs.mkdirSync(path.join(dir, 'src', top), { recursive: true })
  const out = path.join(dir, 'packed.tgz')
  tar.create({ file: out, cwd: path.join(dir, 'src'), gzip: true, portable: true, sync: true }, [top])
  const b = fs.readFileSync(out)
  fs.rmSync(out)
  fs.rmSync(path.join(dir, 'src'), { recursive: true, force: true })
  return b
}

function tree (d, base, out) {
  for (const e of fs.readdirSync(d, { withFileTypes: true })) {
    const f = path.join(d, e.name)
    if (e.isDirectory()) tree(f, base, out)
    else out[path.relative(base, f)] = fs.readFileSync(f, 'latin1')
  }
  return out
}

module.exports = async (q, lib) => {
  const { dir, version } = q
  const devBase = path.join(dir, 'dev')
  const devDir = path.join(devBase, q.versionDir)
  const tmp = path.join(dir, 'tmp')
  fs.mkdirSync(devBase)
  fs.mkdirSync(tmp)
  const top = 'node-v' + version
  const tarball = await pack(dir, top, q.files)
  const served = q.tar === 'other' ? await pack(dir, top, q.files.concat([['include/evil.h', 'evil']])) : q.tar === 'garbage' ? Buffer.from('not a tarball at all') : tarball
  const lb = Buffer.from('library ' + version)
  const libServed = q.lib === 'other' ? Buffer.from('other library') : lb
  const tarName = q.tarName
  const libName = q.libName
  const lines = []
  const sums = { [tarName]: sha(q.hashOf === 'served' ? served : tarball), [libName]: sha(lb) }
  for (const n of [tarName, libName, 'other.tar.gz']) {
    const h = sums[n] || sha(Buffer.from(n))
    const mode = n === tarName ? q.tarSum : n === libName ? q.libSum : 'ok'
    if (mode === 'missing') continue
    if (mode === 'wrong') lines.push(h.replace(/^./, (c) => c === '0' ? '1' : '0') + '  ' + n)
    else if (mode === 'prefix') lines.push(h.slice(0, 32) + '  ' + n)
    else if (mode === 'longer') lines.push(h + '0  ' + n)
    else if (mode === 'upper') lines.push(h.toUpperCase() + '  ' + n)
    else if (mode === 'othername') lines.push(h + '  x' + n)
    else if (mode === 'swapped') lines.push(n + '  ' + h)
    else if (mode === 'empty') lines.push(n)
    else if (mode === 'dot') lines.push(h + '  ./' + n)
    else if (mode === 'star') lines.push(h + ' *' + n)
    else if (mode === 'tail') lines.push(sha(Buffer.from('z')).slice(0, 63) + h.slice(63) + '  ' + n)
    else if (mode === 'twice') { lines.push(h + '  ' + n); lines.push(sha(Buffer.from('q')) + '  ' + n) } else lines.push(h + '  ' + n)
  }
  if (q.order === 'rev') lines.reverse()
  let text = lines.join(q.eol || '\n') + (q.noEnd ? '' : q.eol || '\n')
  if (q.cut) text = text.slice(0, Math.floor(text.length * q.cut))
  if (q.shaBody !== undefined && q.shaBody !== null) text = q.shaBody
  const requests = []
  let markedEarly = false
  const marked = () => { try { return parseInt(fs.readFileSync(path.join(g.devDir, q.versionDir, 'installVersion'), 'ascii'), 10) >= 11 } catch { return false } }
  const server = http.createServer((req, res) => {
    const name = req.url.replace(/^\/dist\/v[^/]*\//, '')
    requests.push(name)
    const kind = name === 'SHASUMS256.txt' ? 'sha' : name.endsWith('.lib') ? 'lib' : 'tar'
    const body = kind === 'sha' ? Buffer.from(text) : kind === 'lib' ? libServed : served
    const how = (q.net || {})[kind] || 'ok'
    const watch = !(q.prior === 'good' && q.opts.ensure)
    setTimeout(() => {
      if (watch && marked()) markedEarly = true
      if (how === 'ok') { res.writeHead(200, { 'content-length': body.length }); res.end(body); return }
      if (/^\d+$/.test(how)) { res.writeHead(+how, { location: '/' }); res.end(body); return }
      if (how === 'close') { req.socket.destroy(); return }
      if (how === 'short') { res.writeHead(200, { 'content-length': body.length }); res.write(body.subarray(0, Math.floor(body.length / 2))); setTimeout(() => req.socket.destroy(), 5); return }
      if (how === 'chunkshort') { res.writeHead(200); res.end(body.subarray(0, Math.floor(body.length / 2))) }
    }, kind === 'sha' ? 12 : kind === 'lib' ? 4 : 0)
  })
  await new Promise((resolve) => server.listen(0, '127.0.0.1', resolve))
  const base = 'http://127.0.0.1:' + server.address().port + '/dist'
  if (q.prior) {
    fs.mkdirSync(path.join(devDir, 'include', 'node'), { recursive: true })
    fs.writeFileSync(path.join(devDir, 'include', 'node', 'node.h'), 'old')
    if (q.prior === 'good') fs.writeFileSync(path.join(devDir, 'installVersion'), '11\n')
    if (q.prior === 'old') fs.writeFileSync(path.join(devDir, 'installVersion'), '8\n')
    if (q.prior === 'junk') fs.writeFileSync(path.join(devDir, 'installVersion'), '')
    if (q.priorLib) { fs.mkdirSync(path.join(devDir, 'x64'), { recursive: true }); fs.writeFileSync(path.join(devDir, 'x64', 'node.lib'), 'old lib') }
  }
  fs.mkdirSync(path.join(devBase, 'other'))
  fs.writeFileSync(path.join(devBase, 'other', 'keep'), 'x')
  const { Gyp } = lib('node-gyp')
  const g = new Gyp()
  g.package = { ...g.package, installVersion: 11 }
  g.opts = { 'dist-url': base, ...(q.asTarget ? { target: version } : {}), ...q.opts }
  if (q.local) {
    const f = path.join(dir, 'local.tgz')
    fs.writeFileSync(f, served)
    g.opts.tarball = f
  }
  g.devDir = devBase
  g.todo = []
  // faults of the file system, and a record of every marker written
  let marks = 0
  let faults = q.faults || []
  const hook = (op, target) => {
    const b = path.basename(String(target))
    const i = faults.findIndex((f) => f[0] === op && (f[1] === b || (f[1] === 'devDir' && target === devDir)))
    if (i >= 0) {
      const f = faults[i]
      faults = faults.filter((_, j) => j !== i)
      return Object.assign(new Error(f[2] + ' injected'), { code: f[2] })
    }
    if (['writeFile', 'copyFile', 'rename'].includes(op) && b === 'installVersion' && path.dirname(String(target)) === devDir) marks++
  }
  gfs.writeFile = async (f, ...a) => { const e = hook('writeFile', f); if (e) throw e; return real.writeFile.call(gfs, f, ...a) }
  gfs.mkdir = async (f, ...a) => { const e = hook('mkdir', f); if (e) throw e; return real.mkdir.call(gfs, f, ...a) }
  gfs.copyFile = async (a, f, ...r) => { const e = hook('copyFile', f); if (e) throw e; return real.copyFile.call(gfs, a, f, ...r) }
  gfs.rename = async (a, f, ...r) => { const e = hook('rename', f); if (e) throw e; return real.rename.call(gfs, a, f, ...r) }
  const env = { TMPDIR: process.env.TMPDIR, HTTP_PROXY: process.env.HTTP_PROXY }
  process.env.TMPDIR = tmp
  const out = {}
  try {
    const r = await lib('install')(g, q.asTarget ? [] : [version])
    out.ok = r === undefined ? null : String(r)
  } catch (e) {
    out.raise = String(e && e.message)
    out.isError = e instanceof Error
  } finally {
    Object.assign(gfs, real)
    for (const k in env) if (env[k] === undefined) delete process.env[k]; else process.env[k] = env[k]
    server.closeAllConnections()
    await new Promise((resolve) => server.close(resolve))
  }
  out.requests = requests
  out.marks = marks
  out.markedEarly = markedEarly
  const used = g.devDir === devBase ? devDir : path.join(g.devDir, q.versionDir)
  out.fellBack = g.devDir !== devBase
  out.exists = fs.existsSync(used)
  out.files = out.exists ? tree(used, used, {}) : {}
  out.left = fs.readdirSync(tmp).filter((f) => f !== '.node-gyp')
  out.other = fs.existsSync(path.join(devBase, 'other', 'keep'))
  return out
}
