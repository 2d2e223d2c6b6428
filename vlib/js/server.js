'use strict'
// Runs requests against the real lib/ of the repository under test, one JSON line each way.
// argv: <repo> <platform or ''>
const repo = process.argv[2]
const platform = process.argv[3]
const path = require('path')
const fs = require('fs')
const os = require('os')
const readline = require('readline')
if (platform) Object.defineProperty(process, 'platform', { value: platform })
const lib = (n) => require(path.join(repo, 'lib', n))
const answers = +process.env.ANSWERS
delete process.env.ANSWERS
const realEnv = process.env
const handlers = {}

function withEnv (env) { process.env = env || {} }

// J05
handlers.parse = ({ argv, env }) => {
  const { Gyp } = lib('node-gyp')
  const g = new Gyp()
  withEnv(env)
  try { g.parseArgv(['node', 'node-gyp', ...argv]) } finally { process.env = realEnv }
  return { todo: g.todo.map((c) => ({ name: String(c.name), args: c.args.map((a) => typeof a === 'string' ? a : '<' + typeof a + '>') })), opts: g.opts, argv: g.argv }
}
// what nopt finds, for the extracted text
handlers.nopt = ({ argv }) => {
  const { Gyp } = lib('node-gyp')
  const g = new Gyp()
  return { found: require('nopt')(g.configDefs, g.shorthands, ['node', 'node-gyp', ...argv]), commands: Object.keys(g.commands), aliases: g.aliases }
}
handlers.rebuild = async ({ todo, args }) => {
  const g = { todo: todo, opts: {} }
  await lib('rebuild')(g, args)
  return g.todo
}

// J02
handlers.release = ({ argv, opts, version, release, env }) => {
  withEnv(env)
  try {
    const r = lib('process-release')(argv, { opts }, version, release)
    if (r.semver) r.semver = r.semver.version
    return r
  } finally { process.env = realEnv }
}

// J03
handlers.python = async ({ config, env, win, world, locations }) => {
  const PF = lib('find-python')
  const f = new PF(config)
  f.env = env
  f.win = win
  f.winDefaultLocations = locations
  const calls = []
  f.execFile = async (exec, args, opts) => {
    const kind = args.some((a) => a.includes('sys.executable')) ? 'path' : args.some((a) => a.includes('version_info')) ? 'version' : 'other'
    let key = exec
    if (opts && opts.shell) {
      const m = /^"(.*)"$/.exec(exec)
      key = m ? m[1] : exec
      if (!m || !args.every((a) => /^".*"$/s.test(a))) key = '<unquoted>' + exec
    }
    calls.push([kind, key, args.length > 2 ? args[0] : ''])
    const w = (world[key] || {})[kind]
    if (w === undefined) return [Object.assign(new Error('spawn ENOENT'), { code: 'ENOENT' }), '', '']
    if (w.throws) throw new Error('cannot run')
    return [w.err ? new Error('Command failed') : null, w.out, '']
  }
  try {
    const got = await f.findPython()
    return { ok: got, calls }
  } catch (e) {
    return { raise: String(e && e.message), isError: e instanceof Error, calls }
  }
}

handlers.pythonReal = async ({ config, env }) => {
  withEnv(env)
  try {
    return { ok: await lib('find-python').findPython(config) }
  } catch (e) {
    return { raise: String(e && e.message) }
  } finally { process.env = realEnv }
}

// J04
handlers.config = async ({ opts, config, nodeDir, python, buildDir, vsInfo, files, arch }) => {
  const { Gyp } = lib('node-gyp')
  const m = lib('create-config-gypi')
  const old = Object.getOwnPropertyDescriptor(process, 'config')
  Object.defineProperty(process, 'config', { value: config, configurable: true, writable: true })
  const before = JSON.stringify(config)
  for (const f in files || {}) {
    fs.mkdirSync(path.dirname(f), { recursive: true })
    fs.writeFileSync(f, files[f])
  }
  const oldArch = Object.getOwnPropertyDescriptor(process, 'arch')
  if (arch) Object.defineProperty(process, 'arch', { value: arch, configurable: true, writable: true })
  try {
    const gyp = { opts, configDefs: new Gyp().configDefs }
    const got = await m.getCurrentConfigGypi({ gyp, nodeDir, python, vsInfo })
    const out = { got: JSON.parse(JSON.stringify(got)), untouched: JSON.stringify(process.config) === before }
    out.path = await m.createConfigGypi({ gyp, buildDir, nodeDir, python, vsInfo })
    out.text = fs.readFileSync(out.path, 'utf8')
    return out
  } finally {
    Object.defineProperty(process, 'config', old)
    if (arch) Object.defineProperty(process, 'arch', oldArch)
  }
}
handlers.parseConfig = ({ text }) => lib('create-config-gypi').parseConfigGypi(text)
// what the build step reads from the file, seen through the command it runs
handlers.build = async ({ dir, argv, opts }) => {
  const cwd = process.cwd()
  process.chdir(dir)
  const spawned = []
  const oldPath = process.env.PATH
  try {
    const gyp = {
      opts,
      spawn (cmd, args) {
        spawned.push([cmd, args])
        const EE = require('events')
        const e = new EE()
        setImmediate(() => e.emit('exit', 0, null))
        return e
      }
    }
    await lib('build')(gyp, argv)
    return { spawned }
  } finally { process.chdir(cwd); process.env.PATH = oldPath }
}

// J06
handlers.vs = async ({ major, msvs, env, ps, registry, exists, arch }) => {
  const VS = lib('find-visualstudio')
  const f = new VS({ major, minor: 0, patch: 0 }, msvs)
  withEnv(env)
  const oldArch = Object.getOwnPropertyDescriptor(process, 'arch')
  Object.defineProperty(process, 'arch', { value: arch || 'x64', configurable: true, writable: true })
  const has = new Set(exists)
  f.msBuildPathExists = (p) => has.has(p)
  f.execFile = async (exec, args) => {
    const cmd = args[args.length - 1]
    const which = cmd.includes('Get-Module') ? 'module' : cmd.includes('Get-VSSetupInstance') ? 'setup' : 'script'
    let r = ps[which]
    if (which === 'setup' && r && r.data !== undefined) {
      // the real command filters on InstallationPath
      const m = /InstallationPath -eq '([^']*)'/.exec(cmd)
      let data = r.data
      if (m) data = data.filter((i) => i.InstallationPath.toLowerCase() === m[1].toLowerCase())
      return [null, data.length === 0 ? '' : JSON.stringify(data.length === 1 ? data[0] : data), '']
    }
    if (!r) return [new Error('spawn failed'), '', '']
    if (r.err) return [new Error('failed'), r.out || '', '']
    return [null, r.out !== undefined ? r.out : JSON.stringify(r.data), '']
  }
  f.regSearchKeys = async (keys, value, opts) => {
    for (const k of keys) {
      const v = (registry[k] || {})[value]
      if (v !== undefined) return v
    }
  }
  try {
    const got = await f.findVisualStudio()
    return { ok: got === undefined ? null : JSON.parse(JSON.stringify(got)) }
  } catch (e) {
    return { raise: String(e && e.message), isError: e instanceof Error }
  } finally {
    process.env = realEnv
    Object.defineProperty(process, 'arch', oldArch)
  }
}

// J01
handlers.install = async (q) => require('./install.js')(q, lib)

const rl = readline.createInterface({ input: process.stdin })
let queue = Promise.resolve()
rl.on('line', (line) => {
  queue = queue.then(async () => {
    let out
    try {
      const q = JSON.parse(line)
      out = { ok: await handlers[q.fn](q.arg) }
    } catch (e) {
      out = { error: String((e && e.stack) || e) }
    }
    fs.writeSync(answers, JSON.stringify(out) + '\n')
  })
})
rl.on('close', () => queue.then(() => process.exit(0)))
process.on('unhandledRejection', (e) => { fs.writeSync(2, 'unhandled ' + (e && e.stack) + '\n') })
