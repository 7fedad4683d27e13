"""What each check runs."""
TECH = "deterministic simulation with fault injection (seeded schedules and faults, replayable)"
REAL = ["lib/*.c", "lib/image/*.c (all readers)", "lib/transform/{kiss_fft,fftw}.c", "lib/kissfft", "src/resdet.c", "src/imgread.c", "src/profile.c", "src/stat.c", "bindings/python/*.py (with CPython, ctypes, NumPy, Pillow; C14 only)", "bindings/emscripten/resdet.mts and the library compiled to WebAssembly (in Node; C17 only)", "glibc stdio", "libpng", "libjpeg", "FFmpeg (libavformat/libavcodec/libswscale)", "MagickWand", "FFTW"]
STUB = ["disk, pipes and standard streams below stdio (simulated, fault-injecting)", "libav protocol layer and MagickWand file reading (fed from the simulated disk)", "allocator (real memory, simulated failures and a ledger)", "thread scheduler (real threads released one at a time)", "exit()", "the CPU clock (getrusage; C20 only)", "Emscripten's runtime (cwrap, heap views, malloc, finalizers; C17 only)"]
A0 = ["sampled, not exhaustive: seeded pseudo-random choice of workloads, schedules and faults", "the harness's own generators, parsers and models are trusted", "decoder libraries are real but assumed correct where their output defines the truth"]
def P(parts, rule, quick=60, thorough=800, nontrivial=True, extra=()):
	return dict(parts=parts, rule=rule, quick=quick, thorough=thorough, nontrivial=nontrivial, assumptions=A0 + list(extra))
READ = "one case = one simulated run: a generated stream (format, layout, size, content), a transport (file/pipe/stdin, partial-read pattern, buffer size), a way of opening, a history of calls%s; distinct by the hash of stream bytes, transport, calls, outcomes and faults; %s"
NT = "non-trivial when a fault fired or the bytes were damaged"
PLAN = {
	"C01": P([("kiss", "clean", 8), ("double", "clean", 2), ("small", "clean", 1)], READ % ("", "every run is counted as non-trivial (each reads a stream to its end and compares every pixel)"), nontrivial=False),
	"C02": P([("kiss", "seek", 8), ("double", "seek", 2)], READ % (" (reads and seeks)", "every run is counted as non-trivial (each compares a history of at least one call with the cursor model)"), nontrivial=False),
	"C03": P([("kiss", "fault", 8), ("double", "fault", 2)], READ % (" under injected I/O faults and truncation", NT)),
	"C04": P([("kiss", "damage", 8), ("double", "damage", 2)], READ % (" on damaged or inconsistent bytes", NT)),
	"C06": P([("kiss", "resources,resources,resources,oneshot,alloc,failing", 8), ("fftw", "sessions,failing,oneshot,alloc", 3), ("double", "resources,oneshot,alloc", 2)], READ % (" on several handles with faults, closed in random order", NT)),
	"C07": P([("kiss", "hostile", 8), ("double", "hostile", 2)], READ % (" on hostile bytes with faults, continued past errors", NT)),
	"C05": P([("kiss", "alloc", 5), ("fftw", "alloc", 3), ("double", "alloc", 2)], "one case = one simulated run: a stream or image, an operation (open, read, seek, bulk read, file or buffer detection, session, parameters), an allocation-failure plan (single, persistent, sparse; from the n-th allocation of the library or of its decoders), with bystander handles; distinct by the hash of bytes, calls, outcomes and faults; " + NT),
	"C08": P([("kiss", "sessions", 4), ("fftw", "sessions", 4), ("double", "sessions", 2), ("small", "sessions", 1)], "one case = one simulated run: 1-3 sessions (method, parameters, size) fed and queried in an interleaved history from a shared pool of frames, compared with the reference model; distinct by the hash of frames, parameters, calls and outcomes; every run is counted as non-trivial (each compares at least one full result)", nontrivial=False),
	"C09": P([("kiss", "failing", 4), ("fftw", "failing", 4), ("double", "failing", 2)], "one case = one simulated run: 1-3 sessions with non-finite samples, missing arguments and memory running out inside calls; distinct by the hash of frames, parameters, calls, outcomes and faults; " + NT),
	"C10": P([("kiss", "oneshot", 5), ("fftw", "oneshot", 3), ("double", "oneshot", 2)], "one case = one simulated run: a stream (valid, damaged, truncated, faulty) or a buffer of images given to a one-shot call and, in the same world, to its step-by-step composition; distinct by the hash of bytes, transport, parameters, calls and faults; every run is counted as non-trivial (each compares two executions)", nontrivial=False),
	"C11": P([("race", "threads", 4), ("kiss", "threads", 3), ("fftw", "threads", 3)], "one case = one simulated run: 2-4 participants (streams, sessions, one-shot calls, faults of their own) run alone and then concurrently under one schedule of preemptions at basic blocks (and, in one build, between accesses to shared static variables), or interleaved in one thread; distinct by the hash of streams, programs, outcomes, faults and context switches; every run is counted as non-trivial (each compares concurrent with solo outcomes)", nontrivial=False),
	"C12": P([("kiss", "cli", 8), ("double", "cli", 2)], "one case = one simulated run: a stream on a file or standard input, a command line of options, faults on the stream, allocations and the standard outputs; the exit status and exact output are compared with what the library gives for the requested frames of an undisturbed copy; distinct by the hash of bytes, arguments, output and faults; every run is counted as non-trivial (each compares a complete command)", nontrivial=False),
	"C14": P([("py", "python", 1)], "one case = one simulated run of the Python bindings: a history of 1-14 operations on images, buffers, analyses and module functions (all kinds of objects, good and invalid arguments, closing, dropping and collecting in any order) over the simulated library with streams that fail, are damaged or missing and allocations that fail; every exception, value and native resource is judged against what the library below did and against the same calls made directly; distinct by the hash of streams, library calls, outcomes and faults; non-trivial when a call failed, arguments were invalid or a fault fired"),
	"C17": P([("js", "js", 1)], "one case = one simulated run of the JavaScript bindings over the library compiled to WebAssembly: a history of 1-14 operations (detections, analyses, results, lookups, good and invalid arguments, dropped objects whose finalizers run at chosen times) on a heap whose allocations fail or whose memory grows; every exception and value is judged against what the library below did and against the same call made directly, and the heap's ledger after every call; distinct by the hash of calls and outcomes; non-trivial when a call failed, arguments were invalid or an allocation failed"),
	"C18": P([("kiss", "args", 5), ("fftw", "args", 2), ("double", "args", 2), ("small", "args", 1)], "one case = one simulated run: 1-2 open streams and a session used by good calls, with missing, unknown or unusable arguments given to every function in between, and every good call repeated on a twin without its optional arguments; distinct by the hash of streams, arguments, calls, outcomes and faults; non-trivial when a bad argument was given or a fault fired"),
	"C19": P([("kiss", "tools", 4), ("double", "tools", 2)], "one case = one simulated run of imgread: a generated stream (valid, damaged or cut) with faults on the input, the output (unwritable, a disk that fills up at any byte) and allocations; the exit status, messages and every byte of the output are compared with the frames of an undisturbed copy; distinct by the hash of bytes, transport, outcome and faults; every run is counted as non-trivial (each compares a complete command)", nontrivial=False),
	"C20": P([("kiss", "profile", 5), ("fftw", "profile", 3), ("double", "profile", 2)], "one case = one simulated run of profile: a generated dictionary of 0-5 images (good, unreadable, malformed entries, blank lines, no final newline), a simulated CPU clock (steps from 0 us to more than an hour), faults on the dictionary, the images and allocations; every row, total and the exit status are compared with detections made directly; distinct by the hash of dictionary, images and report; every run is counted as non-trivial (each compares a complete report)", nontrivial=False),
	"C21": P([("kiss", "stat", 4), ("fftw", "stat", 4), ("double", "stat", 2)], "one case = one simulated run of stat: a generated image of 1-3 frames (many with an enlarged content, so that few resolutions stand out) in any format, valid, damaged, missing or unreadable, each method or none, faults on the input and allocations; every number and list of the report and the exit status are compared with a detection made directly on an undisturbed copy; distinct by the hash of bytes, report, status and faults; every run is counted as non-trivial (each compares a complete command)", nontrivial=False),
	"C13": P([("kiss", "limits", 3), ("small", "limits", 5), ("double", "limits", 1), ("fftw", "limits", 2)], "one case = one simulated run: declared sizes at, around and far beyond the pixel limit, the address space and the simulated memory, for readers, bulk reads and analyses, or a generated stream of frames too large to hold that is skipped by seeking; distinct by the hash of declared sizes, limits, calls and outcomes; non-trivial when the size was beyond a limit or a fault fired"),
}
NOTES = {"*": "Seeded sampling of simulated executions of the real code; a clean run is evidence, not proof. Trusts the harness's generators, parsers and models, and the decoder libraries where their output defines the truth."}
