// Reads lines {kind, index, seed, form, text, canon}; evaluates each text as JSON, as an ES module or as a
// CommonJS module and compares the value (with its sharing) with canon, the form of val.rs's G::canon().
// Prints one JSON object: counts, and the mismatches.
import { mkdirSync, readFileSync, rmSync, writeFileSync } from 'node:fs'
import { createRequire } from 'node:module'
import { dirname } from 'node:path'
import { pathToFileURL } from 'node:url'

const buf = new DataView(new ArrayBuffer(8))
const hex = s => {
    let r = ''
    for (let i = 0; i < s.length; ++i) r += s.charCodeAt(i).toString(16).padStart(4, '0')
    return r + ';'
}

export const canon = root => {
    const out = []
    const seen = new Map()
    const todo = [{ v: root }]
    while (todo.length) {
        const t = todo.pop()
        if (t.s !== undefined) { out.push(t.s); continue }
        const v = t.v
        switch (typeof v) {
            case 'number':
                if (Number.isNaN(v)) out.push('nan')
                else {
                    buf.setFloat64(0, v)
                    out.push('n' + buf.getBigUint64(0).toString(16).padStart(16, '0'))
                }
                continue
            case 'boolean': out.push(v ? 't' : 'f'); continue
            case 'string': out.push('s' + hex(v)); continue
            case 'bigint': out.push('b' + v.toString(16)); continue
            case 'object': break
            default: out.push('?' + typeof v); continue
        }
        if (v === null) { out.push('z'); continue }
        const k = seen.get(v)
        if (k !== undefined) { out.push('#' + k); continue }
        seen.set(v, seen.size)
        if (Array.isArray(v)) {
            out.push('[')
            todo.push({ s: ']' })
            for (let i = v.length - 1; i >= 0; --i) {
                todo.push({ s: ',' })
                todo.push({ v: v[i] })
            }
        } else {
            if (Object.getPrototypeOf(v) !== Object.prototype) out.push('P')
            out.push('{')
            todo.push({ s: '}' })
            const keys = Object.keys(v).sort((a, b) => a < b ? -1 : a > b ? 1 : 0)
            for (let i = keys.length - 1; i >= 0; --i) {
                todo.push({ s: ',' })
                todo.push({ v: v[keys[i]] })
                todo.push({ s: ':' })
                todo.push({ s: hex(keys[i]) })
            }
        }
    }
    return out.join('')
}

export const evaluate = async (form, text) => {
    switch (form) {
        case 'json':
        case 'json?':
            return JSON.parse(text)
        case 'cjs': {
            const module = { exports: {} }
            const require = s => { throw new Error('require ' + s) }
            new Function('exports', 'require', 'module', text)(module.exports, require, module)
            return module.exports
        }
        case 'mjs':
            return (await import('data:text/javascript;base64,' + Buffer.from(text).toString('base64'))).default
    }
    throw new Error('form ' + form)
}

let count = 0

// a module tree, below a scratch directory
const tree = async (dir, text) => {
    const { root, files } = JSON.parse(text)
    const top = `${dir}/${count++}`
    for (const [p, t] of Object.entries(files)) {
        mkdirSync(dirname(top + p), { recursive: true })
        writeFileSync(top + p, t)
    }
    return root.endsWith('.mjs')
        ? (await import(pathToFileURL(top + root).href)).default
        : createRequire(top + '/x.cjs')(top + root)
}

const main = async path => {
    const dir = path + '.trees'
    const r = { evaluated: 0, refused: 0, bad: [], known: {} }
    for (const line of readFileSync(path, 'utf8').split('\n')) {
        if (!line) continue
        const x = JSON.parse(line)
        let got
        try {
            got = canon(x.form === 'tree' ? await tree(dir, x.text) : await evaluate(x.form, x.text))
            r.evaluated++
        } catch (e) {
            got = '!' + String(e).slice(0, 200)
            // 'json?': refused by both, or lenient in one of them
            if (x.form === 'json?') { r.refused++; continue }
        }
        if (got !== x.canon && x.known) {
            r.known[x.known] ??= { count: 0, detail: `${x.text.slice(0, 200)}: ${got.slice(0, 200)}` }
            r.known[x.known].count++
            continue
        }
        if (got !== x.canon && r.bad.length < 5) {
            let i = 0
            while (i < got.length && got[i] === x.canon[i]) i++
            r.bad.push({
                kind: x.kind, index: x.index, seed: x.seed,
                detail: `as ${x.form}: the engine has ...${got.slice(Math.max(0, i - 60), i + 80)}, the system ` +
                    `...${x.canon.slice(Math.max(0, i - 60), i + 80)} of ${JSON.stringify(x.text).slice(0, 600)}`,
            })
        }
    }
    rmSync(dir, { recursive: true, force: true })
    console.log(JSON.stringify(r))
}

if (process.argv[2]) await main(process.argv[2])
