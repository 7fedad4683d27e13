"""The Python half of the simulator: histories of calls on the bindings over the simulated library (C14).

usage: driver.py DIR MODE ARGS...     DIR holds libsim.so, libresdet.so and libcsim.so; the rest goes to the driver in libsim.so
"""
import os, sys
ASAN = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"
REPO = os.environ.get("RESDET_REPO", "/repo")
LIBDIR = os.path.abspath(sys.argv[1])
if not os.environ.get("SIM_REEXEC"):
	import ctypes
	try: ctypes.CDLL(None).personality(ctypes.CDLL(None).personality(0xffffffff) | 0x0040000)      # fixed addresses
	except Exception: pass
	env = dict(os.environ, SIM_REEXEC="1", LD_PRELOAD=ASAN, PYTHONHASHSEED="0", PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTHONNOUSERSITE="1", LC_ALL="C.UTF-8", TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MAGICK_THREAD_LIMIT="1", RESDET_SIM_LIB=LIBDIR + "/libsim.so",
		ASAN_OPTIONS="detect_leaks=0:exitcode=77:halt_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4000:handle_abort=1:print_legend=0:print_cmdline=0:detect_odr_violation=0:symbolize=1:external_symbolizer_path=/usr/bin/llvm-symbolizer-18:quarantine_size_mb=32", UBSAN_OPTIONS="halt_on_error=1:exitcode=77")
	for k in ("PYTHONPATH", "PYTHONSTARTUP", "LD_LIBRARY_PATH"): env.pop(k, None)
	os.execve(sys.executable, [sys.executable, "-s"] + sys.argv, env)

import ctypes, ctypes.util, gc, array, math, struct, traceback, pathlib
from ctypes import c_char_p, c_double, c_float, c_int, c_int64, c_size_t, c_uint, c_uint64, c_void_p, POINTER

class Params(ctypes.Structure):
	_fields_ = [("null", c_int), ("has_range", c_int), ("range", c_uint64), ("has_threshold", c_int), ("threshold", c_float), ("has_filter", c_int), ("filter", c_int)]

sim = ctypes.PyDLL(LIBDIR + "/libsim.so")
def api(name, res, *args):
	f = getattr(sim, name); f.restype = res; f.argtypes = list(args); return f
draw_ = api("pb_draw", c_uint64, c_uint64)
log_ = api("pb_log", None, c_char_p); hist_ = api("pb_hist", None, c_uint64); count_ = api("pb_count", None, c_char_p); nontrivial = api("pb_nontrivial", None)
violation_ = api("pb_violation", None, c_char_p, c_char_p); harness_error_ = api("pb_harness_error", None, c_char_p)
ev_clear = api("pb_events_clear", None); ev_n = api("pb_events", c_size_t); ev_name = api("pb_event_name", c_char_p, c_size_t); ev_err = api("pb_event_err", c_int, c_size_t); ev_ret = api("pb_event_ret", c_int64, c_size_t)
ev_res = api("pb_event_has_results", c_int, c_size_t); ev_count = api("pb_event_count", c_size_t, c_size_t, c_int); ev_index = api("pb_event_index", c_size_t, c_size_t, c_int, c_size_t); ev_conf = api("pb_event_confidence", c_float, c_size_t, c_int, c_size_t)
held = api("pb_held", c_uint64); held_list = api("pb_held_list", c_char_p); faults = api("pb_faults", c_uint64); alloc_plan = api("pb_alloc_plan", None, c_uint); disarm = api("pb_disarm", None); block_size = api("pb_block_size", c_uint64, c_void_p)
stream_ = api("pb_stream", c_int, c_int)
s_name = api("pb_s_name", c_char_p, c_int); s_type = api("pb_s_type", c_char_p, c_int); s_reader = api("pb_s_reader", c_char_p, c_int); s_open_err = api("pb_s_open_err", c_int, c_int); s_end_err = api("pb_s_end_err", c_int, c_int)
s_w = api("pb_s_w", c_size_t, c_int); s_h = api("pb_s_h", c_size_t, c_int); s_frames = api("pb_s_frames", c_size_t, c_int); s_frame = api("pb_s_frame", c_void_p, c_int, c_size_t)
s_clean = api("pb_s_clean", c_int, c_int); s_known = api("pb_s_known", c_int, c_int); s_single = api("pb_s_single", c_int, c_int)
gen_frame = api("pb_frame", None, c_size_t, c_size_t, c_void_p)
ref_detect = api("pb_ref_detect", c_int, c_void_p, c_size_t, c_size_t, c_size_t, c_char_p, POINTER(Params)); ref_detect_file = api("pb_ref_detect_file", c_int, c_int, c_char_p, c_char_p, POINTER(Params))
ref_count = api("pb_ref_count", c_size_t, c_int); ref_index = api("pb_ref_index", c_size_t, c_int, c_size_t); ref_conf = api("pb_ref_confidence", c_float, c_int, c_size_t)
pb_methods = api("pb_methods", c_size_t, c_size_t, POINTER(c_char_p), POINTER(c_float)); pb_readers = api("pb_readers", c_size_t, c_size_t, POINTER(c_char_p)); pb_version = api("pb_version", c_char_p); pb_default_range = api("pb_default_range", c_size_t); pb_error_str = api("pb_error_str", c_char_p, c_int)

# the bindings load "libresdet.so" and the C library: both are the simulated ones
real_dlopen = ctypes._dlopen
importing = True
def dlopen(name, *a):
	n = os.path.basename(os.fsdecode(name)) if name is not None else None
	if n and n.startswith("libresdet."): name = LIBDIR + "/libresdet.so"
	elif n and n.startswith("libc.so") or n is None and importing: name = LIBDIR + "/libcsim.so"
	return real_dlopen(name, *a)
try: import numpy, PIL.Image
except ImportError: numpy = None
ctypes._dlopen = dlopen
ctypes.util.find_library = lambda n: "lib%s.so.6" % n if n in ("c", "m") else "lib%s.so" % n
sys.path.insert(0, REPO + "/bindings/python")
sys.dont_write_bytecode = True
import resdet
if numpy: import resdet_numpy, resdet_PIL
importing = False

# ------------------------------------------------------------------ helpers
def draw(n): return draw_(n)
def rng(a, b): return a + draw_(b - a + 1)
def chance(n, d): return draw_(d) >= d - n
def pick(l): return l[draw_(len(l))]
def log(s): log_(s.encode("utf-8", "backslashreplace"))
def count(s): count_(s.encode())
def violation(cls, msg): violation_(cls.encode(), msg.encode("utf-8", "backslashreplace"))
class Stop(Exception): pass
unraisable = []
def on_unraisable(u): unraisable.append("%s: %s" % (type(u.exc_value).__name__, u.exc_value))
sys.unraisablehook = on_unraisable

class Weird:                                     # a PathLike whose str() is not its path
	def __init__(self, p): self.p = p
	def __fspath__(self): return self.p
	def __str__(self): return "<a path>"
	__repr__ = __str__
def exc_name(e): return type(e).__name__ + (" errno %s" % e.errno if isinstance(e, OSError) else "")
CLASSES = { 1: MemoryError, 2: resdet.InternalError, 3: resdet.InvalidImageError, 4: resdet.UnsupportedFormatError, 5: resdet.ImageTooBigErrror, 6: resdet.ParameterError, 7: resdet.NoImagesError }
def matches(e, err):
	if err < 0: return isinstance(e, OSError) and e.errno == -err
	return type(e) is CLASSES.get(err)
def err_text(err): return "errno %d" % -err if err < 0 else CLASSES[err].__name__ if err in CLASSES else str(err)
def floats(ptr, n): return ctypes.string_at(ptr, n * 4)
def norm(rs): return sorted((r.index, r.confidence) for r in rs)
def close_to(a, b): return len(a) == len(b) and all(x[0] == y[0] and abs(x[1] - y[1]) <= 1e-6 for x, y in zip(a, b))

class Call:
	"""One call of the bindings: what happened beneath it and what came out."""
	def __init__(self, what, fn, invalid=None, expect=None, may_raise=False, quiet=False, same=None):
		# invalid: the arguments cannot be passed on, an exception (of this class, or any if True) is due; expect: error the same direct call gives; same: the same direct call succeeds
		ev_clear(); f0 = faults()
		self.exc, self.value = None, None
		try: self.value = fn()
		except Exception as e:
			self.exc = e
			for x in (e, e.__context__, e.__cause__):
				if x is not None: x.__traceback__ = None
			e.__context__ = None
		n = ev_n()
		self.err = next((ev_err(i) for i in range(n) if ev_err(i)), 0)
		self.errname = next((ev_name(i).decode() for i in range(n) if ev_err(i)), "")
		self.ok = self.exc is None
		log("%s -> %s" % (what, exc_name(self.exc) if self.exc else "ok" if quiet else self.show()))
		hist_(hash(exc_name(self.exc)) & 0xffffffff if self.exc else 1)
		if unraisable: violation("unraisable", "%s: an exception was lost: %s" % (what, unraisable[0]))
		if self.err:
			count("py.call_failed." + err_text(self.err).split(" ")[0]); nontrivial()
			if self.ok: violation("error-lost", "%s: %s failed with %s, but no exception was raised" % (what, self.errname, err_text(self.err)))
			if not invalid and not matches(self.exc, self.err): violation("wrong-exception", "%s: %s failed with %s, but %s was raised: %s" % (what, self.errname, err_text(self.err), exc_name(self.exc), self.exc))
		if invalid:
			nontrivial(); count("py.invalid_arguments")
			if self.ok: violation("invalid-accepted", "%s: the arguments are invalid, but no exception was raised (result: %s)" % (what, self.show()))
			if invalid is not True and not isinstance(self.exc, invalid) and not (self.err and matches(self.exc, self.err)): violation("wrong-exception", "%s: %s was raised for invalid arguments: %s" % (what, exc_name(self.exc), self.exc))
		elif not self.err and self.exc is not None and not (expect and matches(self.exc, expect)) and not may_raise:
			violation("spurious-exception", "%s: nothing failed, but %s was raised: %s" % (what, exc_name(self.exc), self.exc))
		if self.exc is not None and same and not invalid and faults() == f0: violation("spurious-error", "%s: %s was raised (%s); the same call made directly succeeds" % (what, exc_name(self.exc), self.exc))
		if self.ok and expect: violation("error-lost", "%s: the same call made directly fails with %s, but no exception was raised" % (what, err_text(expect)))
	def show(self):
		v = self.value
		if isinstance(v, dict): return "; ".join("%s %s" % (k, " ".join("%d:%.6f" % (r.index, r.confidence) for r in v[k][:4])) for k in v)
		if isinstance(v, (bool, int, str, type(None), tuple)): return repr(v)
		return type(v).__name__
	def last(self, names):
		r = None
		for i in range(ev_n()):
			if ev_name(i).decode() in names: r = i
		return r

def check_results(what, c, expected=None):
	"""c returned resolutions: they are the ones the library gave, and those of the same call made directly"""
	v = c.value
	if not isinstance(v, dict) or set(v) != {"widths", "heights"}: violation("wrong-results", "%s returned %r" % (what, v))
	i = c.last(("resdetect", "resdetect_file", "analysis_results"))
	if i is not None and ev_res(i):
		for h, k in ((0, "widths"), (1, "heights")):
			lib = [(ev_index(i, h, j), ev_conf(i, h, j)) for j in range(ev_count(i, h))]
			got = [(r.index, r.confidence) for r in v[k]]
			if lib != got: violation("wrong-results", "%s: the library gave the %s %s, the bindings %s" % (what, k, lib[:6], got[:6]))
	if expected:
		for k in ("widths", "heights"):
			if not close_to(norm(v[k]), expected[k]): violation("wrong-results", "%s: %s are %s, the same detection made directly gives %s" % (what, k, norm(v[k])[:6], expected[k][:6]))
		count("py.results_compared")
		if any(len(v) > 1 for v in expected.values()): count("py.results_compared_with_findings")

def reference():
	return {k: sorted((ref_index(h, j), ref_conf(h, j)) for j in range(ref_count(h))) for h, k in ((0, "widths"), (1, "heights"))}

# ------------------------------------------------------------------ parameters
METHODS = ["", "sign", "mag", "orig", "zerox"]
def draw_method():
	name = pick(METHODS)
	if not name: return None, b""
	if chance(1, 2): m = resdet.Method.get(name)
	else: m = next(x for x in resdet.methods() if x.name == name)
	return m, name.encode()
def draw_params():
	p = Params(); d = {}
	if chance(2, 5): p.null = 1; return d, p
	if chance(1, 2): p.has_range = 1; p.range = pick([1, 2, 3, 12, 20, 2**32, 2**63, 2**64 - 1]); d["range"] = p.range
	if chance(1, 2): t = pick([0, 0.25, 0.5, 1, 0.0, 1.0]); p.has_threshold = 1; p.threshold = t; d["threshold"] = t
	if chance(1, 4): p.has_filter = 1; p.filter = pick([0, 1, 2, 3, 7, 31]); d["compression_filter"] = p.filter
	if not d: p.null = 1
	return d, p
def draw_bad_params():
	d, p = draw_params()
	k = draw(4)
	cls = resdet.ParameterError
	if k == 0: d["range"] = pick([0, -1, 2**64, 2**64 + 3, -2**63, 2**80])
	elif k == 1: d["threshold"] = pick([float("nan"), -0.5, 1.5, float("inf"), -float("inf"), 1e39, 2, -1])
	elif k == 2: d["compression_filter"] = pick([32, 255, 256, 258, -1, 2**40])
	else:
		cls = True
		x = draw(4)
		if x == 0: d[pick(["Range", "thresold", "filter", "method", ""])] = 1
		elif x == 1: d["range"] = pick(["3", None, [4], 2.5])
		elif x == 2: d["threshold"] = pick(["0.5", None, [0.5]])
		else: d["compression_filter"] = pick(["1", None, [1], 1.5])
	return d, cls
BAD_SIZE = [-1, 2**64, 2**64 + 2, -2**64 + 2, 1.5, "2", None]

# ------------------------------------------------------------------ pixels in all the ways they may be passed
def pixels(w, h, n=1):
	out = b""
	for _ in range(n):
		b = ctypes.create_string_buffer(w * h * 4)
		gen_frame(w, h, b); out += b.raw
	return out
def as_list(px): return list(struct.unpack("%df" % (len(px) // 4), px))
def forms(px, w, h, n, one):
	"""the same pixels as another kind of object; returns (label, object, keeps alive)"""
	k = ["list", "array", "pointer", "carray", "buffer"]
	if numpy and n > 1 and not one: k += ["ndarray of images"] * 2
	if numpy and n == 1: k += ["ndarray", "float64", "strided", "integers"] + (["PIL"] if one or True else [])
	kind = pick(k)
	if kind == "list": return kind, as_list(px)
	if kind == "array": a = array.array("f"); a.frombytes(px); return kind, a
	if kind == "carray": return kind, (c_float * (len(px) // 4)).from_buffer_copy(px)
	if kind == "pointer": return kind, ctypes.cast((c_float * (len(px) // 4)).from_buffer_copy(px), POINTER(c_float))
	if kind == "buffer":
		b = resdet.ImageBuffer.with_dimensions(w, h, n)
		ctypes.memmove(b.data, px, len(px)); return kind, b
	if kind == "ndarray of images": return kind, numpy.frombuffer(px, dtype=numpy.float32).reshape(w, h, n).copy()
	a = numpy.frombuffer(px, dtype=numpy.float32).reshape(w, h)     # the bindings' convention: width first, rows in order
	if kind == "ndarray": return kind, a.copy()
	if kind == "float64": return kind, a.astype(numpy.float64)
	if kind == "integers": return kind, a
	if kind == "strided":
		big = numpy.full((w * 2, h * 3), 7, dtype=numpy.float32); big[::2, ::3] = a; return kind, big[::2, ::3]
	return kind, PIL.Image.fromarray(a.reshape(h, w).copy())

# ------------------------------------------------------------------ the world of one run
class Buf:
	def __init__(self, obj, cap, w=0, h=0, n=1): self.obj, self.cap, self.w, self.h, self.n, self.px = obj, cap, w, h, n, None
class Img:
	pass
class Ana:
	pass

class World:
	def __init__(self):
		self.streams, self.images, self.buffers, self.analyses = [], [], [], []
		self.mode = draw(3)                      # 0: nothing fails, 1: memory runs out, 2: streams fail
		self.n = 0
		self.frames = []                         # what was handed out and must stay as it is: (object, its pixels)
	def hand_out(self, a):
		if a is not None and len(self.frames) < 12: self.frames.append((a, a.tobytes()))
	def check_frames(self, when):
		for a, px in self.frames:
			if a.tobytes() != px: violation("frame-changed", "%s changed a frame (%s) that had been returned before" % (when, type(a).__name__))
		if self.frames: count("py.frames_kept")
	def arm(self):
		if self.mode == 1 and chance(1, 2): alloc_plan(pick([1, 3, 8, 30])); return True
		return False
	def call(self, what, fn, arm=True, **kw):
		armed = arm and self.arm()
		try: return Call(what, fn, **kw)
		finally:
			if armed: disarm()
	def path(self, i):
		b = s_name(i); s = os.fsdecode(b)
		k = draw(3)
		if k == 1 and str(pathlib.PurePath(s)) == s: return pathlib.PurePath(s), "path"
		if k == 2: return Weird(s), "pathlike"
		return s, "str"
	def stream(self):
		kind = 0 if self.mode != 2 else draw(4)
		i = stream_(kind)
		self.streams.append(i)
		return i
	def any_stream(self): return self.stream() if not self.streams or chance(1, 2) and len(self.streams) < 4 else pick(self.streams)
	def frame(self, i, k): return floats(s_frame(i, k), s_w(i) * s_h(i))

	# ---- images
	def op_open(self):
		i = self.any_stream()
		cls, cname = resdet.Image, "Image"
		if numpy and chance(1, 3): cls, cname = pick([(resdet_numpy.Image, "numpy Image"), (resdet_PIL.Image, "PIL Image")])
		kw = {}
		if s_type(i): kw["type"] = s_type(i).decode()
		if s_reader(i): kw["image_reader"] = s_reader(i).decode()
		buf = None
		if cname == "Image" and chance(1, 2):
			if self.buffers and chance(1, 2): buf = pick(self.buffers)
			else: buf = Buf(resdet.ImageBuffer(), 0); self.buffers.append(buf)
			kw["buffer"] = buf.obj
		p, form = self.path(i)
		if chance(1, 15):                        # not a type or a reader there is
			kw.pop("type", None); kw.pop("image_reader", None)
			kw[pick(["type", "image_reader"])] = pick(["nope", "\u00e9", "PG", "pgmx"])
			log("as %r" % sorted(kw.items(), key=str)[-1][1] if "buffer" not in kw else "as something else")
			c = self.call("%s(stream %d as something else)" % (cname, i), lambda: cls(p, **kw))
			if buf: buf.cap, buf.px = 0, None
			if c.ok and "image_reader" in kw: violation("opened-invalid", "an image was opened with the reader %r" % kw["image_reader"])
			return
		c = self.call("%s(stream %d as %s%s)" % (cname, i, form, ", buffer" if buf else ""), lambda: cls(p, **kw))
		if buf: buf.cap, buf.px = 0, None        # opening replaces its data
		if not c.ok:
			if not c.err: pass
			return
		if s_open_err(i) and s_clean(i): violation("opened-invalid", "a stream that the library cannot open (%s) was opened" % err_text(s_open_err(i)))
		m = Img(); m.obj, m.s, m.pos, m.skipped, m.errored, m.closed, m.kind, m.f0 = c.value, i, 0, False, False, False, cname, faults()
		m.known = bool(s_known(i)) and not s_open_err(i) and s_clean(i)
		if s_open_err(i) == 0 and (m.obj.width, m.obj.height) != (s_w(i), s_h(i)): violation("wrong-dimensions", "stream %d was opened as %sx%s, it is %dx%d" % (i, m.obj.width, m.obj.height, s_w(i), s_h(i)))
		m.n = m.obj.width * m.obj.height
		if buf:
			buf.cap, buf.w, buf.h, buf.n = m.n, m.obj.width, m.obj.height, 1
			if (buf.obj.width, buf.obj.height, buf.obj.nimages) != (buf.w, buf.h, 1) or block_size(buf.obj.data) < m.n * 4: violation("wrong-dimensions", "the buffer of an opened image has the dimensions %sx%sx%s" % (buf.obj.width, buf.obj.height, buf.obj.nimages))
			if not buf.obj.data: violation("wrong-value", "the buffer of an opened image has no data")
		self.images.append(m)
	def expect_frame(self, m): return m.pos < s_frames(m.s)
	def judge_read(self, m, what, c, got, data):
		"""got: a frame came out, data: its pixels"""
		if m.closed: return
		if not c.ok: 
			if m.known and not m.errored and self.clean(m) and not (m.pos >= s_frames(m.s) and s_end_err(m.s)): violation("spurious-error", "%s failed: %s" % (what, exc_name(c.exc)))
			m.errored = True; return
		e = c.last(("read_image_frame",))
		if e is not None and bool(ev_ret(e)) != got: violation("wrong-value", "%s returned %s, the library %s" % (what, got, bool(ev_ret(e))))
		if m.errored or not m.known: return
		if got:
			if m.skipped or not self.expect_frame(m): violation("extra-frame", "%s delivered a frame beyond the %d there are" % (what, s_frames(m.s)))
			if data is not None and data != self.frame(m.s, m.pos): violation("wrong-pixels", "%s: frame %d has other pixels than the library reads" % (what, m.pos))
			m.pos += 1; count("py.frames_compared")
		elif self.clean(m) and not m.skipped and self.expect_frame(m): violation("missing-frame", "%s: no frame, %d of %d were read" % (what, m.pos, s_frames(m.s)))
	def clean(self, m): return faults() == m.f0
	def op_read(self):
		if not self.images: return self.op_open()
		m = pick(self.images)
		what = "read"
		if m.kind == "numpy Image" or m.kind == "PIL Image" and chance(1, 5):
			f = (lambda: m.obj.read_image_frame_as_ndarray()) if chance(2, 3) else (lambda: next(m.obj, None))
			c = self.call("read as ndarray", f, invalid=True if m.closed else None, quiet=True)
			a = c.value
			if c.ok: self.hand_out(a)
			if m.kind == "PIL Image" and c.ok and a is not None and not isinstance(a, numpy.ndarray): return self.judge_read(m, what, c, True, a.tobytes())
			if c.ok and a is not None and (a.dtype != numpy.float32 or a.size != m.n): violation("wrong-value", "an ndarray of %s with the shape %s for %dx%d" % (a.dtype, a.shape, m.obj.width, m.obj.height))
			return self.judge_read(m, what, c, a is not None, None if a is None else a.tobytes())
		if m.kind == "PIL Image":
			f = (lambda: m.obj.read_image_frame_as_pil_image()) if chance(2, 3) else (lambda: next(m.obj, None))
			c = self.call("read as PIL image", f, invalid=True if m.closed else None, quiet=True)
			a = c.value
			if c.ok: self.hand_out(a)
			if c.ok and a is not None and (a.mode != "F" or a.size != (m.obj.width, m.obj.height)): violation("wrong-value", "a PIL image of mode %s and size %s for %dx%d" % (a.mode, a.size, m.obj.width, m.obj.height))
			return self.judge_read(m, what, c, a is not None, None if a is None else a.tobytes())
		fit = [b for b in self.buffers if b.cap >= m.n]
		if fit and chance(2, 3): b = pick(fit)
		elif chance(1, 12) and self.buffers:
			b = pick(self.buffers)
			if b.obj.data: return
			c = self.call("read into a closed buffer", lambda: m.obj.read_image_frame(b.obj), invalid=True)
			return
		else:
			c = self.call("ImageBuffer.with_dimensions(%d, %d)" % (m.obj.width, m.obj.height), lambda: resdet.ImageBuffer.with_dimensions(m.obj.width, m.obj.height))
			if not c.ok: return
			b = Buf(c.value, m.n, m.obj.width, m.obj.height, 1); self.buffers.append(b)
			if (b.obj.width, b.obj.height, b.obj.nimages) != (b.w, b.h, 1): violation("wrong-value", "with_dimensions set the dimensions %sx%sx%s" % (b.obj.width, b.obj.height, b.obj.nimages))
			if block_size(b.obj.data) < m.n * 4: violation("short-buffer", "with_dimensions(%d, %d) holds %d bytes" % (b.w, b.h, block_size(b.obj.data)))
		c = self.call("read", lambda: m.obj.read_image_frame(b.obj), invalid=True if m.closed else None)
		b.px = None
		if c.ok and c.value: b.px = floats(b.obj.data, m.n)
		if c.ok and c.value not in (True, False): violation("wrong-value", "read returned %r" % (c.value,))
		self.judge_read(m, what, c, bool(c.value), b.px)
		b.n_px = m.n
	def op_seek(self):
		if not self.images: return self.op_open()
		m = pick(self.images)
		if chance(1, 8):
			k = pick([-1, 2**64, 2**64 + 1, -2**64 + 1, 1.5, "1", None])
			self.call("seek %r" % (k,), lambda: m.obj.seek_frame(k), invalid=True)
			return
		left = s_frames(m.s) - m.pos
		k = pick([0, 1, 1, 2, max(left, 0), left + 1 if left >= 0 else 1, 2**32 + 1, 2**64 - 1])
		seen = []
		pr = None
		if chance(1, 2): pr = seen.append
		c = self.call("seek %d%s" % (k, " with progress" if pr else ""), (lambda: m.obj.seek_frame(k, pr)) if pr or chance(1, 2) else (lambda: m.obj.seek_frame(k)), invalid=True if m.closed else None)
		if seen != list(range(1, len(seen) + 1)): violation("progress", "seeking by %d reported %s" % (k, seen[:8]))
		if m.closed: return
		if not c.ok:
			if m.known and not m.errored and self.clean(m) and not (k > left and s_end_err(m.s)) and not s_single(m.s): violation("spurious-error", "seeking by %d with %d frames left failed: %s" % (k, left, exc_name(c.exc)))
			m.errored = True; return
		e = c.last(("seek_frame",))
		if c.value not in (True, False) or e is not None and bool(ev_ret(e)) != c.value: violation("wrong-value", "seek returned %r, the library %s" % (c.value, bool(ev_ret(e))))
		if pr and c.value and len(seen) != k: violation("progress", "progress reported %d of %d skipped frames" % (len(seen), k))
		if m.errored or not m.known: return
		if s_single(m.s):
			if k: m.known = False
			return
		if c.value:
			if k > left: violation("seek-past-end", "seeking by %d succeeded with %d frames left" % (k, left))
			m.pos += k
		elif self.clean(m):
			if k <= left: violation("seek-failed", "seeking by %d returned False with %d frames left" % (k, left))
			if pr and len(seen) != left: violation("progress", "progress reported %d skipped frames of %d left" % (len(seen), left))
			m.pos = s_frames(m.s)
		else: m.known = False
	def op_close(self):
		"""closed, left, dropped or collected; sometimes twice"""
		what = draw(3)
		l = (self.images, self.buffers, self.analyses)[what]
		if not l: return
		x = pick(l)
		how = draw(5)
		close = { 0: "close_image", 1: "close", 2: "destroy_analysis" }[what]
		name = { 0: "image", 1: "buffer", 2: "analysis" }[what]
		holds = bool(x.obj.data) if what == 1 else not x.closed
		h0 = held()
		if how == 0:
			Call("%s.%s()" % (name, close), getattr(x.obj, close))
			if what == 1: x.cap, x.px = 0, None
			else: x.closed = True
			if chance(1, 3): Call("%s.%s() again" % (name, close), getattr(x.obj, close))
		elif how == 1:
			def f():
				with x.obj as o:
					if o is not x.obj: violation("wrong-value", "entering the context of an object gave another")
			Call("with %s" % name, f)
			if what == 1: x.cap, x.px = 0, None
			else: x.closed = True
		elif how == 2:
			class Mine(Exception): pass
			def f():
				with x.obj: raise Mine()
			c = Call("with %s: raise" % name, f, invalid=Mine)
			if what == 1: x.cap, x.px = 0, None
			else: x.closed = True
		else:
			if how == 4: x.obj.cycle = x.obj
			log("%s dropped%s" % (name, " in a cycle" if how == 4 else ""))
			x.obj = None
			l.remove(x)
			if how == 4: gc.collect()
			if unraisable: violation("unraisable", "dropping an object: %s" % unraisable[0])
			if holds and held() >= h0: violation("not-released", "dropping the %s released nothing" % name)
			return
		# the object lives on, what it held does not
		if holds and held() >= h0: violation("not-released", "%s released nothing: %s" % (["%s.%s()" % (name, close), "leaving the context of the %s" % name, "leaving the context of the %s by an exception" % name][how], held_list().decode()))
		if what == 1 and x.obj.data: violation("wrong-value", "a closed buffer still has data")
	# ---- buffers
	def op_buffer(self):
		if chance(1, 4):
			w, h, n = rng(1, 9), rng(1, 9), rng(1, 3)
			bad = None
			if chance(1, 4):
				k = draw(4)
				if k < 3: v = [w, h, n]; v[k] = pick(BAD_SIZE); w, h, n = v; bad = True
				else: w, h, n = pick([(2**32, 2**32, 1), (2**31, 2**31, 4), (2**62, 1, 1), (2**62 + 1, 1, 1), (2**33, 2**30 + 1, 1), (2**40, 1, 1), (2**20, 2**20, 3)]); bad = MemoryError
			c = self.call("ImageBuffer.with_dimensions(%r, %r, %r)" % (w, h, n), lambda: resdet.ImageBuffer.with_dimensions(w, h, n), invalid=bad)
			if c.ok:
				b = Buf(c.value, w * h * n, w, h, n)
				if block_size(b.obj.data) < b.cap * 4: violation("short-buffer", "with_dimensions(%d, %d, %d) holds %d bytes" % (w, h, n, block_size(b.obj.data)))
				if b.obj.shape() != ((w, h, n) if n > 1 else (w, h)): violation("wrong-value", "the shape of %dx%d, %d images is %s" % (w, h, n, b.obj.shape()))
				b.px = pixels(w, h, n); b.n_px = w * h * n
				ctypes.memmove(b.obj.data, b.px, len(b.px))
				self.buffers.append(b)
			return
		if chance(1, 2) or not self.buffers:
			i = self.any_stream()
			if s_reader(i): return
			p, form = self.path(i)
			t = s_type(i).decode() or None
			f0 = faults()
			c = self.call("read_image(stream %d as %s)" % (i, form), (lambda: resdet.read_image(p, t)) if t or chance(1, 2) else lambda: resdet.read_image(p))
			known = s_known(i) and s_clean(i)
			fail = s_open_err(i) or s_end_err(i)
			if not c.ok:
				if known and faults() == f0 and not fail and s_frames(i): violation("spurious-error", "reading stream %d in bulk failed: %s" % (i, exc_name(c.exc)))
				return
			b = c.value
			if known:
				if fail: violation("error-lost", "reading stream %d in bulk succeeded, frame by frame it fails with %s" % (i, err_text(fail)))
				if (b.width, b.height, b.nimages) != (s_w(i), s_h(i), s_frames(i)): violation("wrong-dimensions", "stream %d in bulk is %sx%s, %s images; it is %dx%d, %d" % (i, b.width, b.height, b.nimages, s_w(i), s_h(i), s_frames(i)))
				px = b"".join(self.frame(i, k) for k in range(s_frames(i)))
				if floats(b.data, len(px) // 4) != px: violation("wrong-pixels", "stream %d in bulk has other pixels than frame by frame" % i)
				x = Buf(b, len(px) // 4, b.width, b.height, b.nimages); x.px = px; x.n_px = len(px) // 4
				self.buffers.append(x); count("py.bulk_compared")
			return
		b = pick(self.buffers)
		if not b.px or not b.cap or b.n_px != b.w * b.h * b.n: return
		f = as_list(b.px)
		n = len(f)
		k = draw(4)
		if k == 0:
			c = Call("list(buffer)", lambda: list(b.obj), quiet=True)
			if struct.pack("%df" % len(c.value), *c.value) != b.px: violation("wrong-value", "iterating over a buffer gave other samples than it holds")
			return
		if chance(1, 4):
			idx = tuple(draw(2) for _ in range(rng(4, 6)))
			Call("buffer[%s]" % (idx,), lambda: b.obj[idx], invalid=True, quiet=True)
		for _ in range(4):
			if k == 1: idx = pick([0, n - 1, n, -1, -n, n + 5, 2**63, 2**64, -2**64, draw(n)]); ok = 0 <= idx < n; want = f[idx] if ok else None
			elif k == 2:
				y, x = (draw(b.h), draw(b.w)) if chance(1, 2) else (pick([-1, b.h, draw(b.h)]), pick([-1, b.w, draw(b.w)]))
				idx = (y, x); ok = 0 <= y < b.h and 0 <= x < b.w; want = f[y * b.w + x] if ok else None
			else:
				z, y, x = (draw(b.n), draw(b.h), draw(b.w)) if chance(1, 2) else (pick([-1, b.n, draw(b.n)]), pick([-1, b.h, draw(b.h)]), pick([-1, b.w, draw(b.w)]))
				idx = (z, y, x); ok = 0 <= z < b.n and 0 <= y < b.h and 0 <= x < b.w; want = f[(z * b.h + y) * b.w + x] if ok else None
			c = Call("buffer[%s]" % (idx,), lambda: b.obj[idx], invalid=None if ok else IndexError, quiet=True)
			if ok and struct.pack("f", c.value) != struct.pack("f", want): violation("wrong-value", "buffer[%s] of %dx%d, %d images is %r, it holds %r" % (idx, b.w, b.h, b.n, c.value, want))
	# ---- detection
	def op_detect(self):
		w, h, n = rng(1, 14), rng(1, 14), rng(1, 3)
		if chance(1, 3): w, h = pick([(24, 8), (8, 24), (32, 32), (17, 5)])
		px = pixels(w, h, n)
		if numpy and chance(1, 3): n = 1; px = px[:w * h * 4]
		form, o = forms(px, w, h, n, False)
		if form == "integers": o = (numpy.frombuffer(px, dtype=numpy.float32).reshape(w, h) * 255).clip(-1000, 1000); o = numpy.nan_to_num(o).astype(pick([numpy.uint8, numpy.int16, numpy.int64])); px = o.astype(numpy.float32).tobytes()
		m, mname = draw_method()
		d, p = draw_params()
		bad = None
		args = [n, w, h]
		if chance(1, 8): d, bad = draw_bad_params()
		elif chance(1, 10) and form in ("list", "array", "pointer", "carray"): args[draw(3)] = pick(BAD_SIZE); bad = True
		elif chance(1, 12) and form in ("list", "array", "pointer", "carray"): args[draw(3)] = 0
		kw = {}
		if m or chance(1, 2): kw["method"] = m
		if d or chance(1, 2): kw["parameters"] = d
		if form in ("list", "array", "pointer", "carray"): f = lambda: resdet.resdetect(o, *args, **kw)
		else: f = lambda: resdet.resdetect(o, **kw)
		want, exp = None, None
		if not bad:
			e = ref_detect(px, args[0], args[1], args[2], mname, ctypes.byref(p))
			if e: exp = e
			else: want = reference()
		h0 = held()
		c = self.call("resdetect(%s of %s, %s, %s)" % (form, args, mname.decode() or "default", sorted(d.items(), key=str)), f, invalid=bad, expect=exp if not bad else None, same=want is not None)
		if c.ok: check_results("resdetect of a %s" % form, c, want)
		if held() != h0: violation("leak", "resdetect kept %s" % held_list().decode())
	def op_detect_file(self):
		i = self.any_stream()
		if s_reader(i): return
		p, form = self.path(i)
		t = s_type(i).decode() or None
		m, mname = draw_method()
		d, ps = draw_params()
		bad = None
		if chance(1, 8): d, bad = draw_bad_params()
		kw = {}
		if m or chance(1, 2): kw["method"] = m
		if d or chance(1, 2): kw["parameters"] = d
		direct = t is None and form == "str" and chance(1, 2)
		if t or chance(1, 2) and not direct: kw["type"] = t
		want, exp = None, None
		known = s_known(i) and s_clean(i)
		if not bad and known:
			e = ref_detect_file(i, t.encode() if t else b"", mname, ctypes.byref(ps))
			if e: exp = e
			else: want = reference()
		h0, f0 = held(), faults()
		c = self.call("%s(stream %d as %s, %s, %s)" % ("resdetect" if direct else "resdetect_file", i, form, mname.decode() or "default", sorted(d.items(), key=str)), (lambda: resdet.resdetect(p, **kw)) if direct else (lambda: resdet.resdetect_file(p, **kw)), invalid=bad, expect=None, same=want is not None)
		if c.ok and exp and faults() == f0: violation("error-lost", "the same detection made directly fails with %s" % err_text(exp))
		if c.ok: check_results("resdetect_file", c, want)
		if held() != h0: violation("leak", "resdetect_file kept %s" % held_list().decode())
	# ---- analyses
	def op_analysis(self):
		if not self.analyses or chance(1, 5):
			w, h = rng(1, 12), rng(1, 12)
			m, mname = draw_method(); d, p = draw_params(); bad = None; exp = None
			if chance(1, 8): d, bad = draw_bad_params()
			elif chance(1, 8):
				if chance(1, 2): w = pick(BAD_SIZE)
				else: h = pick(BAD_SIZE)
				bad = True
			elif chance(1, 12): w, h = pick([(0, 3), (3, 0), (2**32, 2**32), (2**63, 4)])
			kw = {}
			if m or chance(1, 2): kw["method"] = m
			if d or chance(1, 2): kw["parameters"] = d
			c = self.call("Analysis(%r, %r, %s, %s)" % (w, h, mname.decode() or "default", sorted(d.items(), key=str)), lambda: resdet.Analysis(w, h, **kw), invalid=bad)
			if not c.ok: return
			if not w or not h: violation("error-lost", "an analysis of %dx%d was created" % (w, h))
			a = Ana(); a.obj, a.w, a.h, a.method, a.p, a.fed, a.n, a.closed = c.value, w, h, mname, p, b"", 0, False
			self.analyses.append(a)
			return
		a = pick(self.analyses)
		if chance(2, 3):
			px = pixels(a.w, a.h)
			form, o = forms(px, a.w, a.h, 1, True)
			if form == "integers": form, o = "ndarray", o.copy()
			if form == "PIL": px = numpy.array(o, dtype=numpy.float32).tobytes()
			c = self.call("analyze a %s" % form, lambda: a.obj.analyze_image(o), invalid=True if a.closed else None)
			if c.ok:
				if c.value is not None: violation("wrong-value", "analyze_image returned %r" % (c.value,))
				a.fed += px; a.n += 1
		else:
			want, exp = None, None
			if not a.closed:
				e = ref_detect(a.fed, a.n, a.w, a.h, a.method, ctypes.byref(a.p))
				if e: exp = e
				else: want = reference()
			h0 = held()
			c = self.call("results after %d images" % a.n, lambda: a.obj.analysis_results(), invalid=True if a.closed else None, expect=exp, same=want is not None)
			if c.ok: check_results("analysis_results after %d images" % a.n, c, want)
			if held() != h0: violation("leak", "analysis_results kept %s" % held_list().decode())
	# ---- the rest
	def op_info(self):
		k = draw(4)
		if k == 0:
			c = Call("methods()", resdet.methods, quiet=True)
			nm, th = c_char_p(), c_float()
			want = []
			for i in range(pb_methods(99, nm, th)): pb_methods(i, nm, th); want.append((nm.value.decode(), th.value))
			if [(m.name, m.threshold) for m in c.value] != want: violation("wrong-value", "methods() gave %s" % [(m.name, m.threshold) for m in c.value])
		elif k == 1:
			c = Call("list_image_readers()", resdet.list_image_readers, quiet=True)
			nm = c_char_p(); want = []
			for i in range(pb_readers(99, nm)): pb_readers(i, nm); want.append(nm.value.decode())
			if c.value != want: violation("wrong-value", "list_image_readers() gave %s" % c.value)
		elif k == 2:
			if resdet.libversion() != pb_version().decode() or resdet.default_range() != pb_default_range(): violation("wrong-value", "libversion() or default_range()")
		else:
			n = pick(["sign", "mag", "orig", "zerox", "SIGN", "nope", "", "si"])
			c = Call("Method.get(%r)" % n, lambda: resdet.Method.get(n), quiet=True)
			have = {m.name: m.threshold for m in resdet.methods()}
			if (c.value is None) != (n not in have) or c.value is not None and (c.value.name, c.value.threshold) != (n, have[n]): violation("wrong-value", "Method.get(%r) gave %r" % (n, c.value))
	def op_pil_frames(self):
		"""a PIL image of several frames, perhaps of different sizes"""
		if not numpy: return
		import io
		n = rng(1, 4); w, h = rng(2, 9), rng(2, 9)
		if chance(1, 2): w, h = pick([(24, 8), (8, 24), (16, 16)])
		sizes = [(w, h)] * n
		if n > 1 and chance(1, 3): sizes[rng(1, n - 1)] = (rng(1, 9), rng(1, 9))
		first = rng(0, n - 1) if chance(1, 2) else 0       # detection covers the frames from the current one on
		ims, px = [], b""
		for (a, b) in sizes:
			q = numpy.frombuffer(pixels(a, b), dtype=numpy.float32).reshape(b, a)
			q = numpy.nan_to_num(q * 255, posinf=255, neginf=0).clip(0, 255).astype(numpy.uint8)
			ims.append(PIL.Image.fromarray(q))
			if len(ims) > first: px += q.astype(numpy.float32).tobytes()
		f = io.BytesIO()
		ims[0].save(f, format="TIFF", save_all=True, append_images=ims[1:])
		im = PIL.Image.open(io.BytesIO(f.getvalue()))
		m, mname = draw_method()
		d, p = draw_params()
		im.seek(first)
		w, h = sizes[first]
		same = all(s == sizes[first] for s in sizes[first:])
		want, exp = None, None
		if same:
			e = ref_detect(px, n - first, w, h, mname, ctypes.byref(p))
			if e: exp = e
			else: want = reference()
		kw = {}
		if m: kw["method"] = m
		if d: kw["parameters"] = d
		h0 = held()
		c = self.call("resdetect(PIL image of %s, at frame %d)" % (sizes, first), lambda: resdet.resdetect(im, **kw), invalid=None if same else True, expect=exp, same=want is not None)
		if c.ok:
			check_results("resdetect of a PIL image of %d frames" % n, c, want)
			count("py.pil_sequences")
			if any(len(v) > 1 for v in want.values()): count("py.pil_sequences_with_findings")
			if im.tell() != first: violation("wrong-value", "resdetect left the PIL image at frame %d instead of %d" % (im.tell(), first))
		if held() != h0: violation("leak", "resdetect kept %s" % held_list().decode())

	def op_loop(self):
		"""the whole of a stream through iteration, and the documented loop"""
		i = self.any_stream()
		if not s_known(i): return
		p, form = self.path(i)
		kw = {}
		if s_type(i): kw["type"] = s_type(i).decode()
		if s_reader(i): kw["image_reader"] = s_reader(i).decode()
		f0 = faults()
		fail = s_open_err(i) or s_end_err(i)
		clean = s_clean(i)
		if numpy and chance(1, 2):
			cls = pick([resdet_numpy.Image, resdet_PIL.Image])
			c = self.call("list(%s(stream %d))" % (cls.__module__, i), lambda: list(cls(p, **kw)), quiet=True)
			if c.ok:
				if len(c.value) <= 3:
					for a in c.value: self.hand_out(a)
				c.value = [a.tobytes() for a in c.value]
			if c.ok and clean:
				if fail and faults() == f0: violation("error-lost", "iterating over stream %d succeeded, the library fails with %s" % (i, err_text(fail)))
				if not fail and c.value != [self.frame(i, k) for k in range(s_frames(i))]: violation("wrong-pixels", "iterating over stream %d gave %d frames, the library %d" % (i, len(c.value), s_frames(i)))
				count("py.streams_iterated")
			return
		def f():
			out = []
			with resdet.ImageBuffer() as b:
				with resdet.Image(p, buffer=b, **kw) as im:
					with resdet.Analysis(im.width, im.height) as an:
						while im.read_image_frame(b): an.analyze_image(b)
						return an.analysis_results()
		null = Params(); null.null = 1
		want, exp = None, None
		if clean and not s_reader(i):
			e = ref_detect_file(i, s_type(i), b"", ctypes.byref(null))
			if e: exp = e
			else: want = reference()
		h0 = held()
		c = self.call("the documented loop over stream %d" % i, f, same=want is not None)
		if c.ok and exp and faults() == f0: violation("error-lost", "the same detection made directly fails with %s" % err_text(exp))
		if c.ok: check_results("the documented loop", c, want)
		if held() != h0: violation("leak", "the documented loop kept %s" % held_list().decode())

OPS = ["op_open", "op_read", "op_seek", "op_read", "op_close", "op_buffer", "op_detect", "op_detect_file", "op_analysis", "op_analysis", "op_info", "op_pil_frames", "op_loop", "op_buffer"]
def scenario():
	gc.disable()
	unraisable.clear()
	w = World()
	log("%s" % ["nothing fails", "memory runs out", "streams fail"][w.mode])
	for _ in range(rng(1, 14)):
		op = pick(OPS)
		getattr(w, op)()
		w.check_frames(op[3:])
	# everything is dropped, in an order of the run's choosing
	left = [(l, x) for l in (w.images, w.buffers, w.analyses) for x in l]
	while left:
		l, x = left.pop(draw(len(left)))
		x.obj = None
	gc.collect()
	w.check_frames("dropping everything")
	w.frames.clear()
	w.images.clear(); w.buffers.clear(); w.analyses.clear()
	w = x = l = left = None
	gc.collect()
	if unraisable: violation("unraisable", "while dropping everything: %s" % unraisable[0])
	if held(): violation("leak", "%d native resources are held after every object is gone: %s" % (held(), held_list().decode()))
	log("done")

def callback():
	try: scenario()
	except BaseException: harness_error_(traceback.format_exc().encode("utf-8", "backslashreplace")[-3000:])
CBT = ctypes.PYFUNCTYPE(None); CB = CBT(callback)
set_cb = api("pb_set_callback", None, CBT); set_cb(CB)
gc.collect(); gc.freeze(); gc.disable()
args = [b"sim"] + [os.fsencode(a) for a in sys.argv[2:]]
argv = (c_char_p * (len(args) + 1))(*args, None)
main = api("sim_driver_main", c_int, c_int, POINTER(c_char_p))
rc = main(len(args), argv)
sys.stdout.flush()
os._exit(rc)
