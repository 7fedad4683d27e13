// One simulated WebAssembly world: its heap with a ledger and failing allocations, growing memory, finalizers that run when the simulator says so.
import fs from 'node:fs'
const dir = new URL('.', import.meta.url).pathname
const compiled = new WebAssembly.Module(fs.readFileSync(dir + 'resdet.wasm'))
const exported = fs.readFileSync(dir + 'exported_functions.txt', 'utf8').split(/[\s,\[\]"']+/).filter(Boolean)
let world = null
export function current() { return world; }
export class Violation extends Error { constructor(cls, msg) { super(msg); this.cls = cls; } }
const PAGE = 65536, RED = 16, LIMIT = 48 << 20
const utf8 = new TextDecoder()
const names = ['NOMEM', 'INTERNAL', 'INVAL', 'UNSUPP', 'TOOBIG', 'PARAM', 'NOIMG']

export class World {
	constructor(sim) {
		world = this
		this.sim = sim                                   // draw(), count()
		this.blocks = new Map(); this.freed = []; this.seq = 0
		this.plan = null; this.fired = 0; this.growth = 0
		this.events = []; this.recording = false; this.depth = 0
		this.finalizers = []                             // [registry, target, held, token]
		const env = new Proxy({}, { get: (_, n) => this.imports[n] ?? ((...a) => { throw new Violation('harness', 'the library calls ' + n) }) , has: () => true })
		this.imports = { malloc: n => this.malloc(n >>> 0), free: p => this.free(p >>> 0), realloc: (p, n) => this.realloc(p >>> 0, n >>> 0), fprintf: () => 0, printf: () => 0, puts: () => 0, fputs: () => 0, snprintf: () => 0 }
		for(const f of ['sin', 'cos', 'tan', 'atan', 'acos', 'asin', 'exp', 'log', 'log2', 'log10', 'sqrt', 'floor', 'ceil', 'trunc', 'atan2', 'pow', 'exp2', 'cbrt', 'log1p', 'expm1', 'sinh', 'cosh', 'tanh', 'hypot']) this.imports[f] = Math[f]
		this.imports.exp2 = x => 2 ** x
		this.imports.nearbyint = x => { const f = Math.floor(x), d = x - f; return d < 0.5 || d === 0.5 && f % 2 === 0 ? f : f + 1 }
		this.imports.fmod = (a, b) => a % b
		const imp = {}
		for(const i of WebAssembly.Module.imports(compiled)) imp[i.name] = env[i.name]
		this.x = new WebAssembly.Instance(compiled, { env: imp }).exports
		this.memory = this.x.memory
		this.top = this.x.__heap_base.value + 64 & ~15
		const M = this.Module = {}
		this.views()
		for(const e of exported) {
			const n = e.replace(/^_/, '')
			if(n === 'malloc') M[e] = size => { const p = this.malloc(size >>> 0); this.event('malloc', p ? 0 : 1); return p | 0 }
			else if(n === 'free') M[e] = p => { this.free(p >>> 0) }
			else if(this.x[n]) M[e] = this.shim(n)
		}
		M.cwrap = (ident, ret, args) => {
			const f = M['_' + ident]
			if(!f) throw new TypeError('Cannot call unknown function ' + ident)
			if(ret !== 'string' && (!args || args.every(t => t === 'number' || t === 'boolean'))) return f
			return (...a) => this.ccall(f, ret, args, a)
		}
		M.getValue = (p, t = 'i8') => {
			if(t.endsWith('*')) t = '*'
			const d = new DataView(this.memory.buffer)
			switch(t) {
			case 'i1': case 'i8': return d.getInt8(p)
			case 'i16': return d.getInt16(p & ~1, true)
			case 'i32': return d.getInt32(p & ~3, true)
			case 'i64': return d.getBigInt64(p & ~7, true)
			case 'float': return d.getFloat32(p & ~3, true)
			case 'double': return d.getFloat64(p & ~7, true)
			case '*': return d.getUint32(p & ~3, true)
			}
			throw new Error('invalid type for getValue: ' + t)
		}
		M.UTF8ToString = p => this.string(p)
	}
	views() { this.Module.HEAPF32 = new Float32Array(this.memory.buffer) }
	string(p) { if(!p) return ''; const b = new Uint8Array(this.memory.buffer); let e = p; while(b[e]) e++; return utf8.decode(b.slice(p, e)) }
	u32(p) { return new DataView(this.memory.buffer).getUint32(p, true) }
	f32(p) { return new DataView(this.memory.buffer).getFloat32(p, true) }
	ccall(f, ret, types, a) {
		const sp = this.x.__stack_pointer, old = sp.value
		try {
			const c = a.map((v, i) => {
				if(types?.[i] !== 'string') return v
				if(v === null || v === undefined || v === 0) return 0
				const s = new TextEncoder().encode(v + '\0')
				sp.value = sp.value - s.length & ~15
				new Uint8Array(this.memory.buffer).set(s, sp.value)
				return sp.value
			})
			const r = f(...c)
			return ret === 'string' ? this.string(r) : ret === 'boolean' ? Boolean(r) : r
		} finally { sp.value = old }
	}
	// ---- calls, with what came out of them
	shim(n) {
		const f = this.x[n]
		return (...a) => {
			this.depth++
			let r
			try { r = f(...a) }
			catch(e) {
				if(e instanceof WebAssembly.RuntimeError || e instanceof RangeError) throw new Violation('memory-safety:' + n, n + ' trapped: ' + e.message)
				throw e
			} finally { this.depth-- }
			const out = (rw, cw, rh, ch) => [[rw, cw], [rh, ch]].map(([p, c]) => { p >>>= 0; c >>>= 0; const l = []; if(p && c) for(let i = 0, q = this.u32(p); i < this.u32(c); i++) l.push([this.u32(q + i * 8), this.f32(q + i * 8 + 4)]); return l })
			if(n === 'resdet_alloc_default_parameters') this.event(n, r ? 0 : 1)
			else if(n.startsWith('resdet_parameters_set_') || n === 'resdet_analyze_image') this.event(n, r)
			else if(n === 'resdet_create_analysis') this.event(n, a[4] ? this.u32(a[4] >>> 0) | 0 : r ? 0 : 1)
			else if(n === 'resdet_analysis_results') this.event(n, r, r ? null : out(...a.slice(1, 5)))
			else if(n === 'resdetect') this.event(n, r, r ? null : out(...a.slice(4, 8)))
			return r
		}
	}
	event(name, err, results) { if(this.recording && !this.depth) this.events.push({ name, err, results }) }
	// ---- heap
	arm(n, mode) { this.plan = { n, mode, k: 0 } }
	disarm() { this.plan = null }
	grow(pages) {
		if(this.memory.buffer.byteLength + pages * PAGE > LIMIT * 2) return false
		this.memory.grow(pages); this.growth++; this.views(); return true
	}
	malloc(n) {
		if(this.plan) {
			const p = this.plan
			p.k++
			if(p.mode === 0 ? p.k === p.n : p.mode === 1 ? p.k >= p.n : this.sim.draw(p.n) === 0) { this.fired++; this.sim.count('fault.malloc_failed'); return 0 }
		}
		if(n > LIMIT || this.top + n + 4 * RED > LIMIT) { this.sim.count('fault.memory_exhausted'); this.fired++; return 0 }
		const p = this.top + RED + 16 * this.sim.draw(3)
		const end = p + n + RED
		while(end > this.memory.buffer.byteLength) this.grow(1 + (end - this.memory.buffer.byteLength >> 16))
		if(this.growing && this.sim.draw(3) === 0) { this.grow(1); this.sim.count('fault.memory_growth') }
		const b = new Uint8Array(this.memory.buffer)
		b.fill(0xA5, p - RED, p); b.fill(0xCD, p, p + n); b.fill(0xA5, p + n, end)
		this.top = end + 15 & ~15
		this.blocks.set(p, { n, seq: this.seq++ })
		return p
	}
	check(p, k, what) {
		const b = new Uint8Array(this.memory.buffer, p - RED, k.n + 2 * RED)
		for(let i = 0; i < RED; i++) if(b[i] !== 0xA5 || b[RED + k.n + i] !== 0xA5) throw new Violation('memory-safety:overrun', `${what}: memory next to a block of ${k.n} bytes was overwritten`)
	}
	free(p) {
		if(!p) return
		const k = this.blocks.get(p)
		if(!k) throw new Violation('memory-safety:free', 'memory that is not allocated (any more) was freed')
		this.check(p, k, 'free')
		this.blocks.delete(p)
		new Uint8Array(this.memory.buffer, p, k.n).fill(0xDD)
		if(this.freed.length < 64) this.freed.push([p, k.n])
	}
	realloc(p, n) {
		if(!p) return this.malloc(n)
		const k = this.blocks.get(p), q = this.malloc(n)
		if(q) { new Uint8Array(this.memory.buffer).copyWithin(q, p, p + Math.min(n, k.n)); this.free(p) }
		return q
	}
	verify() {
		for(const [p, k] of this.blocks) this.check(p, k, 'check')
		for(const [p, n] of this.freed) { const b = new Uint8Array(this.memory.buffer, p, n); for(let i = 0; i < n; i++) if(b[i] !== 0xDD) throw new Violation('memory-safety:write-after-free', `freed memory of ${n} bytes was written`) }
	}
	held() { return this.blocks.size }
	held_list() { return [...this.blocks.values()].slice(0, 6).map(k => `${k.n} bytes (allocation #${k.seq})`).join(', ') }
	err_name(e) { return names[e - 1] ?? String(e) }
}
// finalizers run when the simulator decides
globalThis.FinalizationRegistry = class FinalizationRegistry {
	constructor(cb) { this.cb = cb; this.w = world }
	register(target, held, token) {
		if(target === held) throw new TypeError('FinalizationRegistry.prototype.register: target and holdings must not be same')
		this.w.finalizers.push({ r: this, target, held, token })
	}
	unregister(token) { const n = this.w.finalizers.length; this.w.finalizers = this.w.finalizers.filter(f => f.token === undefined || f.token !== token); return this.w.finalizers.length < n }
}
