// Runs, minimises and replays simulated executions of the JavaScript bindings; the same interface as driver.cpp.
import fs from 'node:fs'
import path from 'node:path'
import { fork } from 'node:child_process'
import { pathToFileURL } from 'node:url'
const argv = process.argv.slice(2), dir = path.resolve(argv[0]), mode = argv[1]
const opt = { seed: 1, secs: 10, workers: 8, prop: 'X', 'replay-dir': '.', shrink: 60, first: 0, runs: Infinity }
let file = null
for(let i = 2; i < argv.length; i++) { if(argv[i].startsWith('--')) { const k = argv[i].slice(2); opt[k] = argv[++i]; if(!isNaN(opt[k]) && opt[k] !== '') opt[k] = Number(opt[k]) } else if(!argv[i].startsWith('-')) file = argv[i] }
const now = () => Number(process.hrtime.bigint()) / 1e9
const { scenario } = await import(pathToFileURL(dir + '/scenario.mjs'))
const { Violation } = await import(pathToFileURL(dir + '/world.mjs'))

// ---------------------------------------------------------------- choices
function mixer(seed) {                       // splitmix32 over two words
	let a = seed >>> 0, b = Math.floor(seed / 2 ** 32) >>> 0
	return () => { a = a + 0x9E3779B9 >>> 0; let t = a ^ a >>> 16 ^ b; t = Math.imul(t, 0x21f0aaad); t ^= t >>> 15; t = Math.imul(t, 0x735a2d97); b = b + t >>> 0; return (t ^ t >>> 15) >>> 0 }
}
const seed_of = (s, i) => { const r = mixer(s * 2654435761 % 2 ** 48 + i * 40503); for(let k = 0; k < 4; k++) r(); return r() * 2 ** 20 + (r() & 0xfffff) }
class Sim {
	constructor(next) { this.next = next; this.ch = []; this.text = []; this.h = 0x811c9dc5; this.h2 = 7; this.hh = 0x1234567; this.counts = {}; this.nt = false
		for(const k of ['draw', 'chance', 'pick', 'range', 'log', 'count', 'violation', 'hist', 'nontrivial', 'prng']) this[k] = this[k].bind(this) }
	draw(n) { let v = this.next(n, this.ch.length); if(!(v < n)) v = v % n; this.ch.push(v); return v }
	chance(a, b) { return this.draw(b) >= b - a }
	pick(l) { return l[this.draw(l.length)] }
	range(a, b) { return a + this.draw(b - a + 1) }
	mix(s) { for(let i = 0; i < s.length; i++) { this.h = Math.imul(this.h ^ s.charCodeAt(i), 0x01000193) >>> 0; this.h2 = Math.imul(this.h2 + s.charCodeAt(i), 0x9E3779B1) ^ this.h >>> 7 } }
	log(s) { this.text.push(s); this.mix(s + '\n') }
	hist(v) { const s = String(v) + '|' + this.text[this.text.length - 1]; for(let i = 0; i < s.length; i++) this.hh = Math.imul(this.hh ^ s.charCodeAt(i), 0x01000193) >>> 0 }
	count(k, n = 1) { this.counts[k] = (this.counts[k] ?? 0) + n; if(k.startsWith('fault.malloc')) this.nt = true }
	nontrivial() { this.nt = true }
	prng(seed) { const r = mixer(seed + 1); return () => r() / 2 ** 32 }
	violation(cls, msg) { throw new Violation(cls, msg) }
	loghash() { return (this.h >>> 0).toString(16).padStart(8, '0') + (this.h2 >>> 0).toString(16).padStart(8, '0') }
}
let nth = 0
const load = () => import(pathToFileURL(dir + '/resdet.mjs').href + '?run=' + nth++)
async function execute(next) {
	const s = new Sim(next)
	let status = 1, cls = '', msg = ''
	try { await scenario(s, load) }
	catch(e) {
		if(e instanceof Violation) { status = e.cls === 'harness' ? 3 : 2; cls = e.cls; msg = e.message; s.log(`VIOLATION ${cls}: ${msg}`) }
		else { status = 3; msg = String(e?.stack ?? e) }
	}
	return { status, cls, msg, ch: s.ch, log: s.text.join('\n'), loghash: s.loghash(), hist: s.hh, counts: s.counts, nt: s.nt }
}
const run_seed = (seed, i) => { const r = mixer(seed_of(seed, i)); return execute(n => n > 2 ** 32 ? r() * 2 ** 20 + (r() & 0xfffff) : r()) }
const run_choices = ch => execute((n, k) => ch[k] ?? 0)

// ---------------------------------------------------------------- worker
if(mode === 'worker') {
	const t0 = now()
	const hists = [], hn = [], counts = {}
	let runs = 0
	const send = m => new Promise(r => process.send(m, r))
	let i = opt.first
	for(; now() - t0 < opt.secs && runs < 1500 && i < opt.runs; i += opt.workers) {
		if(runs % 20 === 0) process.send({ at: i })
		const r = await run_seed(opt.seed, i)
		runs++
		for(const k in r.counts) counts[k] = (counts[k] ?? 0) + r.counts[k]
		hists.push(r.hist); if(r.nt) hn.push(r.hist)
		if(r.status !== 1) { await send({ bad: { idx: i, status: r.status, cls: r.cls, msg: r.msg } }); break }
	}
	await send({ done: { next: i, runs, hists, hn, counts } })
	process.exit(0)
}
if(mode === 'one') { const r = await run_seed(opt.seed, opt.first); console.log(r.log + `\nstatus ${r.status} cls ${r.cls} loghash ${r.loghash} choices ${r.ch.length}\n${r.msg}`); process.exit(0) }
if(mode === 'hashes') { for(let i = opt.first; i < opt.first + opt.runs; i++) { const r = await run_seed(opt.seed, i); console.log('js', i, r.status, r.loghash, r.hist, r.cls) } process.exit(0) }
if(mode === 'replay') {
	const t = fs.readFileSync(file, 'utf8').split('\n')
	const get = k => t.find(l => l.startsWith(k + ' '))?.slice(k.length + 1) ?? ''
	const r = await run_choices(get('choices').split(' ').filter(Boolean).map(Number))
	console.log(r.log + '\n' + r.msg)
	if(r.status === 2 && r.cls === get('class') && r.loghash === get('loghash')) { console.log('reproduced exactly: ' + r.cls); process.exit(1) }
	console.log(`not reproduced: status ${r.status} class ${r.cls} loghash ${r.loghash}`)
	process.exit(r.status === 1 ? 0 : 2)
}
// ---------------------------------------------------------------- run
const t0 = now()
const hists = new Set(), hn = new Set(), counts = {}
let runs = 0, bad = [], stop = false, hung = null
await Promise.all(Array.from({ length: opt.workers }, (_, k) => (async () => {
	let next = opt.first + k
	while(!stop && now() - t0 < opt.secs && next < opt.first + opt.runs) {
		await new Promise(res => {
			const c = fork(process.argv[1], [dir, 'worker', '--seed', opt.seed, '--first', next, '--workers', opt.workers, '--secs', Math.max(0.1, opt.secs - (now() - t0)).toFixed(2), '--runs', opt.runs === Infinity ? 2 ** 50 : opt.first + opt.runs], { execArgv: process.execArgv })
			let finished = false, at = next, timer
			const beat = () => { clearTimeout(timer); timer = setTimeout(() => { hung = at; stop = true; c.kill('SIGKILL') }, 60000) }
			beat()
			c.on('message', m => {
				beat()
				if(m.at !== undefined) at = m.at
				if(m.bad) { bad.push(m.bad); stop = true }
				if(m.done) { finished = true; next = m.done.next; runs += m.done.runs; for(const h of m.done.hists) hists.add(h); for(const h of m.done.hn) hn.add(h); for(const k in m.done.counts) counts[k] = (counts[k] ?? 0) + m.done.counts[k] }
			})
			const poll = setInterval(() => { if(stop) c.kill('SIGKILL') }, 200)
			c.on('exit', (code, sig) => { clearTimeout(timer); clearInterval(poll); if(!finished && !stop) { bad.push({ idx: at, status: 3, cls: '', msg: `a worker ended with ${code ?? sig}` }); stop = true } res() })
		})
	}
})()))
const wall = now() - t0
let rc = 0, violation = null
if(hung !== null && !bad.length) { console.log(`the simulation makes no progress near run ${hung}`); process.exit(2) }
bad.sort((a, b) => (a.status === 2 ? 0 : 1) - (b.status === 2 ? 0 : 1) || a.idx - b.idx)
if(bad.length) {
	const b = bad[0]
	if(b.status !== 2) { console.log(`harness error in run ${b.idx}: ${b.msg}`); process.exit(2) }
	const a = await run_seed(opt.seed, b.idx), a2 = await run_choices(a.ch)
	if(a.status !== 2 || a2.status !== 2 || a.loghash !== a2.loghash) { console.log(`violation in run ${b.idx} does not replay (${a.status} ${a.loghash} / ${a2.status} ${a2.loghash}): ${b.msg}`); process.exit(2) }
	let m = a.ch, tries = 0
	const end = now() + opt.shrink, ok = async c => { if(now() > end) return null; tries++; const r = await run_choices(c); return r.status === 2 && r.cls === a.cls ? r.ch.slice(0, c.length) : null }
	for(let progress = true; progress && now() < end;) {
		progress = false
		for(let size = m.length >> 1; size >= 1 && now() < end; size >>= 1)
			for(let i = 0; i + size <= m.length && now() < end;) { const r = await ok([...m.slice(0, i), ...m.slice(i + size)]); if(r && r.length < m.length) { m = r; progress = true } else i += size }
		for(let i = 0; i < m.length && now() < end; i++) for(const v of [0, m[i] >> 1]) if(v < m[i]) { const c = [...m]; c[i] = v; const r = await ok(c); if(r && r.length <= m.length) { m = r; progress = true; break } }
	}
	let f = await run_choices(m)
	if(f.status !== 2 || f.cls !== a.cls) { m = a.ch; f = a }
	const p = `${opt['replay-dir']}/${opt.prop}-js-js-${opt.seed}-${b.idx}.replay`
	fs.writeFileSync(p, `resdet simulation replay\nproperty ${opt.prop}\nvariant js\nscenario js\nseed ${opt.seed}\nrun ${b.idx}\nclass ${f.cls}\nloghash ${f.loghash}\nminimised from ${a.ch.length} to ${m.length} choices in ${tries} attempts\nchoices ${m.join(' ')}\n--- trace\n${f.log}\n--- message\n${f.msg}\n`)
	console.log(`found: ${f.cls}\n${f.msg}\nreplay: ${p}`)
	violation = { class: f.cls, message: f.msg, replay: p }
	rc = 1
}
const samples = []
if(!rc) for(let i = 0; i < 12; i++) {          // a small determinism gate on every invocation
	const a = await run_seed(opt.seed, opt.first + i), b = await run_choices(a.ch)
	if(a.loghash !== b.loghash || a.status !== b.status) { console.log('nondeterminism in run ' + i); process.exit(2) }
	if(i < 2) samples.push(`js run ${i}: ` + a.log.slice(0, 1500))
}
const calls = counts['steps'] ?? 0
if(opt.out) fs.writeFileSync(opt.out, JSON.stringify({ variant: 'js', scenarios: 'js', runs, wall, nontrivial_runs: hn.size, distinct: hists.size, distinct_nontrivial: hn.size, steps: 0, io_calls: 0, preemptions: 0, edges: 0, edges_total: 0, known_runs: 0, known: [], counters: counts, samples, violation }))
console.log(`js: ${runs} runs in ${wall.toFixed(1)} s (${Math.round(runs / wall)}/s), ${hists.size} distinct histories (${hn.size} with faults)`)
process.exit(rc)
