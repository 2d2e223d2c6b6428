'use strict'
// node ast.js FILE: the syntax tree of a module (ESTree), by acorn
const fs = require('fs')
const acorn = require(process.argv[2])
const t = acorn.parse(fs.readFileSync(process.argv[3], 'utf8'), { ecmaVersion: 'latest', sourceType: 'script', locations: true, allowHashBang: true })
process.stdout.write(JSON.stringify(t, (k, v) => ((k === 'start' || k === 'end') && typeof v === 'number') || typeof v === 'bigint' ? undefined : v instanceof RegExp ? undefined : v))
