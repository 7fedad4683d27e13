"""Builds the simulators from /repo's current working tree into a cache keyed by content."""
import glob, hashlib, os, re, subprocess, sys, shutil, concurrent.futures, fcntl, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RESDET_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
CC, CXX = "/usr/bin/clang-18", "/usr/bin/clang++-18"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=object-size", "-fno-sanitize-recover=all"]
MAGICK = ["-I/usr/include/x86_64-linux-gnu/ImageMagick-6", "-I/usr/include/ImageMagick-6", "-fopenmp", "-DMAGICKCORE_HDRI_ENABLE=0", "-DMAGICKCORE_QUANTUM_DEPTH=16"]
LIBDEFS = ["-DHAVE_LIBJPEG=2", "-DHAVE_LIBPNG=1", "-DHAVE_MAGICKWAND=6", "-DHAVE_FFMPEG=1"]
LAX = ["-Wno-error=" + w for w in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-function-pointer-types", "return-type")]   # warnings to gcc
BASE = [*LAX, "-DUSE_BUILTIN_SIGNBIT", "-DVERSION_SUFFIX=\"-sim\""]
SEAMS = """malloc calloc realloc free reallocarray strdup strndup aligned_alloc posix_memalign fopen fopen64 fclose exit getrusage
jpeg_CreateDecompress jpeg_destroy_decompress jpeg_destroy png_create_read_struct
fftwf_alloc_real fftwf_malloc fftwf_free fftwf_plan_r2r_2d fftwf_destroy_plan fftw_alloc_real fftw_malloc fftw_free fftw_plan_r2r_2d fftw_destroy_plan
avformat_open_input avformat_close_input avformat_find_stream_info av_find_best_stream avcodec_alloc_context3 avcodec_free_context avcodec_parameters_to_context avcodec_open2
avcodec_receive_frame avcodec_send_packet sws_alloc_context sws_freeContext sws_init_context sws_scale_frame av_frame_alloc av_frame_free av_packet_alloc av_packet_free av_read_frame
MagickRelinquishMemory RelinquishMagickMemory NewMagickWand DestroyMagickWand MagickReadImage MagickGetException MagickExportImagePixels""".split()
VARIANTS = {
	"kiss": dict(fft="kiss", libs=True, defs=[]),
	"fftw": dict(fft="fftw", libs=True, defs=["-DVAR_FFTW"]),
	"race": dict(fft="kiss", libs=True, defs=[], cov=",trace-loads,trace-stores", opt="-O0"),     # threads may also be switched within basic blocks
	"small": dict(fft="kiss", libs=True, defs=["-DPIXEL_MAX=4096"]),
	"py": dict(fft="kiss", libs=True, defs=["-DSIM_PY"]),      # a shared object below the Python bindings
	"js": dict(fft="kiss", libs=False, defs=[]),              # WebAssembly below the JavaScript bindings
	"double": dict(fft="kiss", libs=False, defs=["-DCOEFF_PRECISION=D", "-DINTER_PRECISION=D", "-Dkiss_fft_scalar=double", "-DVAR_DOUBLE"]),
}
def run(cmd, **kw):
	p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
	if p.returncode: raise SystemExit("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:])) if False else BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
class BuildError(Exception): pass

def sources(variant):
	v = VARIANTS[variant]
	lib = sorted(glob.glob(REPO + "/lib/*.c"))
	img = [f for f in sorted(glob.glob(REPO + "/lib/image/*.c")) if v["libs"] or os.path.basename(f) in ("pgm.c", "pfm.c", "y4m.c")]
	tr = [REPO + "/lib/transform/%s.c" % ("fftw" if v["fft"] == "fftw" else "kiss_fft")]
	kiss = [] if v["fft"] == "fftw" else [REPO + "/lib/kissfft/%s.c" % n for n in ("kiss_fft", "kiss_fftr") if os.path.exists(REPO + "/lib/kissfft/%s.c" % n)]
	return lib + img + tr, kiss
def tree_hash():
	h = hashlib.sha256()
	fs = []
	for d in ("lib", "include", "src"):
		for r, _, names in os.walk(os.path.join(REPO, d)):
			fs += [os.path.join(r, n) for n in names if n.endswith((".c", ".h"))]
	fs += glob.glob(REPO + "/bindings/emscripten/*")
	fs += glob.glob(HERE + "/sim/*") + glob.glob(HERE + "/sim/py/*") + glob.glob(HERE + "/sim/js/*") + glob.glob(HERE + "/sim/js/include/*") + [__file__]
	for f in sorted(fs):
		if not os.path.isfile(f): continue
		h.update(f.encode()); h.update(open(f, "rb").read())
	return h.hexdigest()[:20]
JS_FILES = ("world.mjs", "scenario.mjs")
def build_js(d):
	"""the library as WebAssembly, without Emscripten: clang, wasm-ld and a small C library; the bindings' TypeScript as JavaScript"""
	os.makedirs(d, exist_ok=True)
	js = HERE + "/sim/js"; eb = REPO + "/bindings/emscripten"
	srcs = [f for f in sorted(glob.glob(REPO + "/lib/*.c")) if not os.path.basename(f).startswith("image")] + [REPO + "/lib/transform/kiss_fft.c", *sources("js")[1], js + "/libc.c"]
	objs = []
	def cc(f):
		o = os.path.join(d, os.path.basename(os.path.dirname(f)) + "_" + os.path.basename(f) + ".o")
		run([CC, "--target=wasm32-unknown-unknown", "-std=gnu99", "-w", "-O1", "-ffreestanding", "-ffunction-sections", "-fdata-sections", "-isystem", js + "/include", *BASE, "-I" + REPO + "/include", "-I" + REPO + "/lib", "-I" + REPO + "/lib/kissfft", "-c", f, "-o", o])
		return o
	with concurrent.futures.ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, srcs))
	text = open(eb + "/exported_functions.txt").read()
	names = [n for n in re.split(r"[\s,\[\]\"']+", text) if n]
	ex = ["--export=" + n[1:] for n in names if n not in ("_malloc", "_free")]
	run(["wasm-ld-18", "--no-entry", "--gc-sections", "--stack-first", "-z", "stack-size=65536", "--export=__stack_pointer", "--export=__heap_base", *ex, "--allow-undefined", *objs, "-o", d + "/resdet.wasm"])
	open(d + "/exported_functions.txt", "w").write(text)
	for f in JS_FILES: shutil.copy(js + "/" + f, d + "/" + f)
	shutil.copy(js + "/module.mjs", d + "/libresdet.mjs")
	run(["node", js + "/transpile.cjs", eb + "/resdet.mts", d + "/resdet.tmp"])
	os.rename(d + "/resdet.tmp", d + "/resdet.mjs")
def build(variants):
	os.makedirs(CACHE, exist_ok=True)
	key = tree_hash()
	root = os.path.join(CACHE, key)
	lock = open(os.path.join(CACHE, "lock"), "w")
	fcntl.flock(lock, fcntl.LOCK_EX)
	target = lambda v: os.path.join(root, v, {"py": "libcsim.so", "js": "resdet.mjs"}.get(v, "sim"))
	want = [v for v in variants if not os.path.exists(target(v))]
	if want:
		for old in os.listdir(CACHE):         # only the last few trees are kept
			p = os.path.join(CACHE, old)
			if old not in ("lock", key) and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 1800: shutil.rmtree(p, ignore_errors=True)
		os.makedirs(root, exist_ok=True)
		jobs = []
		hdir = os.path.join(root, "harness"); os.makedirs(hdir, exist_ok=True)
		# the public header, made acceptable to C++ (a struct tag equal to a const typedef is not)
		api = open(REPO + "/include/resdet.h").read().replace("struct RDMethod {", "struct RDMethod_tag {").replace("* restrict ", "* ").replace("restrict", "")
		open(os.path.join(hdir, "resdet_api.h"), "w").write(api)
		harness = [f for f in sorted(glob.glob(HERE + "/sim/*.cpp")) if os.path.basename(f) not in ("main.cpp", "pybridge.cpp")]
		for f in harness if set(want) - {"py", "js"} else []:
			b = os.path.basename(f)[:-4]
			o = os.path.join(hdir, b + ".o")
			if not os.path.exists(o): jobs.append([CXX, "-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address", "-I" + hdir, *MAGICK, "-c", f, "-o", o])
		redef = []
		for s in SEAMS:
			a, _, b = s.partition(":")
			redef += ["--redefine-sym", "%s=sim_%s" % (a, b or a)]
		plans = {}
		if "js" in want: build_js(os.path.join(root, "js")); want.remove("js")
		for v in want:
			d = os.path.join(root, v); os.makedirs(d, exist_ok=True)
			cfg = VARIANTS[v]; objs = []
			s1, s2 = sources(v)
			pic = ["-fPIC"] if v == "py" else []
			inst = SAN + ["-fsanitize-coverage=trace-pc-guard" + cfg.get("cov", "")] + pic
			com = [cfg.get("opt", "-O1"), "-g", "-w", "-ftrivial-auto-var-init=pattern", "-I" + REPO + "/include", "-I" + REPO + "/lib", "-I" + REPO + "/lib/kissfft", *BASE, *cfg["defs"], *(LIBDEFS if cfg["libs"] else [])]
			for f in s1 + s2 + [REPO + "/src/%s.c" % t for t in ("resdet", "imgread", "profile", "stat")]:
				o = os.path.join(d, os.path.relpath(f, REPO).replace("/", "_") + ".o")
				std = "-std=gnu99" if f.startswith(REPO + "/src") else "-std=c99"
				jobs.append([CC, std, *com, *(MAGICK if "magick" in f else []), *inst, "-c", f, "-o", o, ("redef", [*redef, "--redefine-sym", "main=%s_main" % os.path.basename(f)[:-2]])])
				objs.append(o)
			m = os.path.join(d, "main.o")
			jobs.append([CXX, "-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address", "-I" + hdir, "-DVARIANT=" + v, *cfg["defs"], *(LIBDEFS if cfg["libs"] else []), *MAGICK, "-c", HERE + "/sim/main.cpp", "-o", m])
			if pic:
				jobs[-1][1:1] = pic
				for f in harness + [HERE + "/sim/pybridge.cpp"]:
					o = os.path.join(d, "h_" + os.path.basename(f) + ".o")
					jobs.append([CXX, "-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address", *pic, "-DSIM_PY", "-I" + hdir, *MAGICK, "-c", f, "-o", o])
					objs.append(o)
			plans[v] = (d, objs + [m])
		def job(j):
			post = [x for x in j if isinstance(x, tuple)]
			cmd = [x for x in j if not isinstance(x, tuple)]
			run(cmd)
			o = cmd[-1]
			for _, r in post: run(["/usr/bin/objcopy", *r, o])
		with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(job, jobs))
		hobjs = sorted(glob.glob(hdir + "/*.o"))
		def link(v):
			d, objs = plans[v]
			tmp = os.path.join(d, "sim.tmp")
			if v == "py": how = ["-shared", "-shared-libsan", "-Wl,-Bsymbolic", "-Wl,-soname,libsim.so"]; tmp = os.path.join(d, "libsim.so")
			else: how = hobjs
			run([CXX, "-fsanitize=address,undefined", *objs, *how, "-o", tmp, "-lm", "-lfftw3f", "-lfftw3", "-ljpeg", "-lpng16", "-lz", "-lMagickWand-6.Q16", "-lMagickCore-6.Q16", "-lavcodec", "-lavformat", "-lavutil", "-lswscale", "-lpthread"])
			if v != "py": os.rename(tmp, os.path.join(d, "sim")); return
			so = [CC, "-O1", "-g", "-w", "-std=gnu11", "-fno-builtin", "-fPIC", "-shared", "-I" + REPO + "/include", "-Wl,-Bsymbolic"]
			run([*so, HERE + "/sim/py/shim.c", "-o", os.path.join(d, "libresdet.so"), tmp])
			run([*so, HERE + "/sim/py/libc.c", "-o", os.path.join(d, "libcsim.tmp"), tmp])
			os.rename(os.path.join(d, "libcsim.tmp"), target(v))
		with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(link, want))
	os.utime(root)
	fcntl.flock(lock, fcntl.LOCK_UN)
	py = next((p for p in ("/opt/resdet-venv/bin/python", sys.executable) if os.path.exists(p)), "python3")
	def command(v):
		if v == "py": return [py, HERE + "/sim/py/driver.py", os.path.join(root, v)]
		if v == "js": return ["node", HERE + "/sim/js/driver.mjs", os.path.join(root, v)]
		return [os.path.join(root, v, "sim")]
	return {v: command(v) for v in variants}
if __name__ == "__main__":
	t = time.time()
	try: print(build(sys.argv[1:] or list(VARIANTS)))
	except BuildError as e: print(e); sys.exit(2)
	print("%.1f s" % (time.time() - t))
