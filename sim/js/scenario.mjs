// Histories of calls on the JavaScript bindings (C17).
import { World, Violation } from './world.mjs'
const METHODS = ['', 'sign', 'mag', 'orig', 'zerox']
export async function scenario(sim, load) {
	const { draw, chance, pick, range, log, count, violation } = sim
	const w = new World(sim)
	const rd = await load()
	const mode = draw(3)                                     // 0: nothing fails, 1: memory runs out, 2: memory grows all the time
	log(['nothing fails', 'memory runs out', 'memory grows'][mode])
	w.growing = mode === 2
	const live = []                                          // analyses the program still has

	// ---------------------------------------------------------------- direct calls
	const x = w.x
	const quiet = f => { const p = w.plan, g = w.growing; w.plan = null; w.growing = false; const r = f(); w.plan = p; w.growing = g; return r }
	const cstr = s => { const b = new TextEncoder().encode(s + '\0'), p = w.malloc(b.length); new Uint8Array(w.memory.buffer).set(b, p); return p }
	const direct_method = name => { if(!name) return 0; const p = cstr(name), r = x.resdet_get_method(p); w.free(p); return r }
	function direct(px, n, width, height, mname, prm) {     // what the library itself gives
		return quiet(() => {
			let p = 0
			if(prm && (prm.range !== undefined || prm.threshold !== undefined || prm.compression_filter !== undefined)) {
				p = x.resdet_alloc_default_parameters()
				let e = 0
				if(prm.range !== undefined) e ||= x.resdet_parameters_set_range(p, prm.range)
				if(prm.threshold !== undefined) e ||= x.resdet_parameters_set_threshold(p, prm.threshold)
				if(prm.compression_filter !== undefined) e ||= x.resdet_parameters_set_compression_filter(p, prm.compression_filter)
				if(e) { w.free(p); return { err: e } }
			}
			const b = w.malloc(px.length * 4 || 4), o = w.malloc(16)
			new Float32Array(w.memory.buffer).set(px, b / 4)
			const e = x.resdetect(b, n, width, height, o, o + 4, o + 8, o + 12, direct_method(mname), p)
			const res = [[], []]
			if(!e) for(const h of [0, 1]) { const q = w.u32(o + h * 8), c = w.u32(o + h * 8 + 4); for(let i = 0; i < c; i++) res[h].push([w.u32(q + i * 8), w.f32(q + i * 8 + 4)]); w.free(q) }
			w.free(b); w.free(o); w.free(p)
			return { err: e, res }
		})
	}
	const sorted = l => [...l].sort((a, b) => a[0] - b[0] || a[1] - b[1])
	const same = (a, b) => a.length === b.length && a.every((v, i) => v[0] === b[i][0] && Object.is(v[1], b[i][1]))
	const show = l => l.slice(0, 5).map(v => v[0] + ':' + v[1].toFixed(6)).join(' ')

	// ---------------------------------------------------------------- one call of the bindings
	const matches = (e, err) => err === 1 ? e.rderror === 1 || e.constructor?.name === 'OutOfMemoryError' || /memory/i.test(e.message) : e.rderror === err
	function call(what, fn, { invalid = false, expect = 0, keeps = 0 } = {}) {
		const armed = mode === 1 && chance(1, 2)
		if(armed) w.arm(pick([1, 2, 3, 5, 8, 30]), draw(3))
		w.events = []; w.recording = true
		const h0 = w.held()
		const c = { ok: true }
		try { c.value = fn() }
		catch(e) { if(e instanceof Violation) throw e; c.ok = false; c.exc = e }
		w.recording = false; w.disarm()
		c.failed = w.events.find(e => e.err)
		const exc = c.ok ? '' : `${c.exc?.constructor?.name}${c.exc?.rderror !== undefined ? ' ' + c.exc.rderror : ''}: ${c.exc?.message}`
		log(`${what} -> ${c.ok ? 'ok' : exc}`)
		sim.hist(c.ok ? 1 : exc)
		w.verify()
		if(c.failed) {
			count('js.call_failed.' + w.err_name(c.failed.err)); sim.nontrivial()
			if(c.ok) violation('error-lost', `${what}: ${c.failed.name} failed with ${w.err_name(c.failed.err)}, but nothing was thrown`)
			if(!invalid && !matches(c.exc, c.failed.err)) violation('wrong-exception', `${what}: ${c.failed.name} failed with ${w.err_name(c.failed.err)}, but ${exc} was thrown`)
			if(!invalid && c.exc.rderror > 0) { const m = w.string(x.resdet_error_str(c.exc.rderror)); if(c.exc.message !== m) violation('wrong-exception', `${what}: the message of the error is "${c.exc.message}", not "${m}"`) }
		}
		if(invalid) {
			count('js.invalid_arguments'); sim.nontrivial()
			if(c.ok) violation('invalid-accepted', `${what}: the arguments are invalid, but nothing was thrown`)
			if(!(c.exc instanceof Error)) violation('wrong-exception', `${what}: ${exc} was thrown`)
		}
		else if(!c.ok && !c.failed && !(expect && matches(c.exc, expect))) violation('spurious-exception', `${what}: nothing failed, but ${exc} was thrown`)
		if(c.ok && expect) violation('error-lost', `${what}: the same call made directly fails with ${w.err_name(expect)}, but nothing was thrown`)
		if(w.held() !== h0 && !(c.ok && keeps)) violation('leak', `${what}: ${w.held() - h0} more blocks of the WebAssembly heap are held than before: ${w.held_list()}`)
		return c
	}
	function check_results(what, c, name, want) {
		const v = c.value
		if(!v || !Array.isArray(v.widths) || !Array.isArray(v.heights) || Object.keys(v).length !== 2) violation('wrong-results', `${what} returned ${JSON.stringify(v)}`)
		const got = [v.widths, v.heights].map(l => l.map(r => { if(!(r instanceof rd.Resolution)) violation('wrong-results', `${what} returned a ${r?.constructor?.name}`); return [r.index, r.confidence] }))
		const lib = w.events.findLast(e => e.name === name)?.results
		for(const h of [0, 1]) {
			if(lib && !same(lib[h], got[h])) violation('wrong-results', `${what}: the library gave the ${h ? 'heights' : 'widths'} ${show(lib[h])}, the bindings ${show(got[h])}`)
			if(want && !(sorted(want[h]).length === got[h].length && sorted(got[h]).every((g, i) => g[0] === sorted(want[h])[i][0] && Math.abs(g[1] - sorted(want[h])[i][1]) < 1e-6))) violation('wrong-results', `${what}: ${h ? 'heights' : 'widths'} are ${show(got[h])}, the same detection made directly gives ${show(want[h])}`)
		}
		count('js.results_compared')
	}
	// ---------------------------------------------------------------- arguments
	function pixels(n) {
		const a = new Float32Array(n), k = draw(4), s = sim.prng(draw(1 << 30))
		for(let i = 0; i < n; i++) a[i] = k === 0 ? s() : k === 1 ? Math.sin(i * 0.7) * 0.5 + 0.5 : k === 2 ? (i >> 1) % 5 / 5 : Math.round(s())
		if(n && chance(1, 12)) { a[draw(n)] = pick([NaN, Infinity, -Infinity]); count('js.nonfinite') }
		if(chance(1, 3)) { const big = new Float32Array(n + 7).fill(9); big.set(a, 3); return big.subarray(3, 3 + n) }     // a view into a larger array
		return a
	}
	function method() {
		const name = pick(METHODS)
		if(!name) return [chance(1, 2) ? null : undefined, '']
		return [chance(1, 2) ? rd.Method.get(name) : rd.methods().find(m => m.name === name), name]
	}
	function params() {
		const p = {}
		if(chance(2, 5)) return p
		if(chance(1, 2)) p.range = pick([1, 2, 3, 12, 20, 2 ** 31, 2 ** 32 - 1])
		if(chance(1, 2)) p.threshold = pick([0, 0.25, 0.5, 1])
		if(chance(1, 4)) p.compression_filter = pick([0, 1, 2, 3, 7, 31])
		const q = {}
		for(const k of Object.keys(p).sort(() => 0)) q[k] = p[k]
		return chance(1, 2) ? q : Object.fromEntries(Object.entries(q).reverse())
	}
	function bad_params() {
		const p = params(), k = draw(4)
		if(k === 0) p.range = pick([0, -1, 2 ** 32, 2 ** 32 + 3, 1.5, NaN, Infinity, -(2 ** 31)])
		else if(k === 1) p.threshold = pick([NaN, -0.5, 1.5, Infinity, -Infinity, 2, -1])
		else if(k === 2) p.compression_filter = pick([32, 255, 256, 258, -1, 2 ** 32 + 1, 1.5, NaN])
		else p[pick(['Range', 'thresold', 'filter', 'method', ''])] = 1
		return p
	}
	const BAD_SIZE = [-1, 2 ** 32, 2 ** 32 + 2, 1.5, NaN, Infinity, 0.5, -(2 ** 32) + 2]
	const args_str = (...a) => a.map(v => typeof v === 'object' && v ? JSON.stringify(v, (k, y) => typeof y === 'number' && !isFinite(y) ? String(y) : y) : String(v)).join(', ')

	const ops = {
		detect() {
			let width = range(1, 14), height = range(1, 14), n = range(1, 3)
			if(chance(1, 3)) [width, height] = pick([[24, 8], [8, 24], [32, 32], [17, 5]])
			let px = pixels(width * height * n)
			if(chance(1, 6)) { const q = new Float32Array(px.length + 5); q.set(px); px = q }                  // longer than needed
			const [m, mname] = method()
			let p = params(), invalid = false
			const size = [n, width, height]
			if(chance(1, 8)) { p = bad_params(); invalid = true }
			else if(chance(1, 10)) { size[draw(3)] = pick(BAD_SIZE); invalid = true }
			else if(chance(1, 12)) size[draw(3)] = 0
			let d = null
			if(!invalid) d = direct(px, ...size, mname, p)
			const a = [px, ...size]
			if(m !== undefined || Object.keys(p).length || chance(1, 2)) a.push(m)
			if(a.length > 4 && (Object.keys(p).length || chance(1, 2))) a.push(p)
			const what = `resDetect(${args_str(...size)}, ${mname || 'default'}, ${args_str(p)})`
			const c = call(what, () => rd.resDetect(...a), { invalid, expect: d?.err ?? 0 })
			if(c.ok) check_results(what, c, 'resdetect', d.res)
		},
		create() {
			let width = range(1, 12), height = range(1, 12), invalid = false
			const [m, mname] = method()
			let p = params()
			if(chance(1, 8)) { p = bad_params(); invalid = true }
			else if(chance(1, 8)) { if(chance(1, 2)) width = pick(BAD_SIZE); else height = pick(BAD_SIZE); invalid = true }
			else if(chance(1, 10)) [width, height] = pick([[0, 3], [3, 0], [65536, 65536], [2 ** 31, 4], [2 ** 32 - 1, 1]])
			const a = [width, height]
			if(m !== undefined || Object.keys(p).length || chance(1, 2)) a.push(m)
			if(a.length > 2 && (Object.keys(p).length || chance(1, 2))) a.push(p)
			const what = `new Analysis(${args_str(width, height)}, ${mname || 'default'}, ${args_str(p)})`
			const c = call(what, () => new rd.Analysis(...a), { invalid, keeps: 1 })
			if(!c.ok) return
			if(!width || !height || width > 65535 || height > 65535) violation('error-lost', what + ' gave an analysis')
			live.push({ obj: c.value, width, height, mname, p, fed: [], n: 0 })
		},
		analyze() {
			if(!live.length) return ops.create()
			const a = pick(live), px = pixels(a.width * a.height)
			const bad = px.some(v => !isFinite(v))
			const c = call(`analyze image ${a.n} of ${a.width}x${a.height}`, () => a.obj.analyzeImage(px), { expect: bad ? 3 : 0 })
			if(c.ok) {
				if(c.value !== undefined) violation('wrong-value', 'analyzeImage returned something')
				a.fed.push(...px); a.n++
			}
		},
		results() {
			if(!live.length) return ops.create()
			const a = pick(live)
			const d = direct(new Float32Array(a.fed), a.n, a.width, a.height, a.mname, a.p)
			const c = call(`results after ${a.n} images`, () => a.obj.analysisResults(), { expect: d.err })
			if(c.ok) check_results(`analysisResults after ${a.n} images`, c, 'resdet_analysis_results', d.res)
		},
		info() {
			const k = draw(4)
			if(k === 0) {
				const c = call('methods()', () => rd.methods())
				if(!c.ok) return
				const want = []
				for(let p = x.resdet_methods(); w.u32(p); p += 12) want.push([w.string(w.u32(p)), w.f32(p + 8)])
				if(JSON.stringify(want) !== JSON.stringify(c.value.map(m => [m.name, m.threshold]))) violation('wrong-value', 'methods() gave ' + JSON.stringify(c.value))
			} else if(k === 1) {
				const n = pick(['sign', 'mag', 'orig', 'zerox', 'SIGN', 'nope', '', 'si', 'signs', '\u00e9'])
				const c = call(`Method.get(${n})`, () => rd.Method.get(n))
				const have = METHODS.includes(n) && n
				if(c.ok && (Boolean(c.value) !== Boolean(have) || have && (c.value.name !== n || !(c.value instanceof rd.Method)))) violation('wrong-value', `Method.get(${n}) gave ${JSON.stringify(c.value)}`)
			} else if(k === 2) { if(rd.libVersion() !== w.string(x.resdet_libversion())) violation('wrong-value', 'libVersion() gave ' + rd.libVersion()) }
			else if(rd.defaultRange() !== x.resdet_default_range()) violation('wrong-value', 'defaultRange() gave ' + rd.defaultRange())
		},
		drop() {
			if(!live.length) return
			const i = draw(live.length)
			log('an analysis is dropped'); live.splice(i, 1)
		},
		collect() { finalize(true) },
	}
	function finalize(some) {
		// finalizers of what the program cannot reach any more, in any order
		for(;;) {
			const dead = w.finalizers.filter(f => !live.some(a => a.obj === f.target))
			if(!dead.length || some && chance(1, 3)) return
			const f = pick(dead)
			w.finalizers.splice(w.finalizers.indexOf(f), 1)
			log('a finalizer runs'); count('fault.finalizer_at_a_chosen_time')
			f.r.cb(f.held)
			w.verify()
		}
	}
	const order = ['detect', 'create', 'analyze', 'results', 'analyze', 'drop', 'collect', 'info', 'detect', 'analyze', 'results']
	const steps = range(1, 14)
	for(let i = 0; i < steps; i++) ops[pick(order)]()
	live.length = 0
	finalize(false)
	w.verify()
	if(w.held()) violation('leak', `${w.held()} blocks of the WebAssembly heap are held after every object is gone: ${w.held_list()}`)
	log('done')
	return w
}
