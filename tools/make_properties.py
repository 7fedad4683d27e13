import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
R=["lib/image.c","lib/image/pgm.c","lib/image/pfm.c","lib/image/y4m.c","lib/image/libpng.c","lib/image/libjpeg.c","lib/image/ffmpeg.c","lib/image/magickwand.c"]
RD="resdet_read_image_frame";SK="resdet_seek_frame";OP="resdet_open_image / resdet_open_image_with_reader"
p("C01","Readers deliver exactly the stream's frames, whatever the transport",
 "For a well-formed image or image sequence in any supported format (PGM, PFM, Y4M, PNG, JPEG and what the FFmpeg and MagickWand readers decode), opening it reports its true dimensions and successive reads return every frame once, in stream order, as its normalised grayscale pixels, after which every further read returns false with no error. The outcome depends only on the bytes: it is the same from a seekable file, a pipe or standard input, for every way the stream is split into partial reads and whatever the stream's buffer size, and whether the reader is chosen by extension, type, MIME type or reader name in any letter case.",
 ["inputs","schedules","configurations"],"all well-formed streams of the supported formats (all colour layouts, bit depths, byte orders, comments and header parameter orders the readers accept) x all delivery schedules of their bytes x both kinds of stream x all ways to select the reader",
 "The tests read a handful of fixed checkerboard files from a regular file in one go; no test uses a pipe, standard input, partial reads, chroma layouts other than one, mixed PFM sequences, interlaced or palette PNGs or multi-packet video with a decoder delay.",
 R+["lib/image_readers.c"],[("per-format open/read_frame","lib/image/*.c"),("reader selection by extension, MIME type or name","lib/image.c:32-150")],
 [("eof / header_consumed / decoder state","position in the frame sequence","lib/image/*.c context structs")],[OP,RD])
p("C02","Seeking is equivalent to reading and discarding frames",
 "At any point in a sequence, seeking forward by k frames returns true exactly when at least k frames remain, and reads after it continue with the frame that k discarded reads would have led to; seeking by 0 always succeeds and changes nothing, including directly after opening and at the end. Seeking further than the remaining frames returns false without an error, leaves the sequence at its end, and terminates however large k is. The progress callback is called exactly once for each frame skipped, with the numbers 1, 2, 3... in order and the caller's context pointer.",
 ["histories","inputs","schedules"],"all interleavings of reads and seeks (including 0, past the end and very large offsets) over sequences of every reader, on seekable and non-seekable streams under every delivery schedule",
 "Tests seek once to a fixed offset in one file per reader; they do not interleave seeks and reads, seek by 0 before reading, seek past the end and continue, mix frame formats, or use a non-seekable stream.",
 R,[("fskip by reading or fseek","lib/image.c:16-25"),("per-reader seek_frame","lib/image/*.c")],
 [("seekable flag, header_consumed, eof","how far the stream has been consumed","lib/image/*.c")],[SK,RD])
p("C03","I/O faults and truncation never pass for frames or a clean end",
 "Whatever read errors, seek errors, interrupted calls, writer crashes or premature ends of stream occur, a call that reports success has really delivered (or skipped) the next complete frame with its true pixels, and a clean end (false with no error) is reported only after every frame of the stream was delivered or skipped; otherwise the call returns a nonzero error. A file that cannot be opened yields a null handle, zeroed dimensions, a null buffer and the negated errno of the failure. (For a JPEG or an FFmpeg/MagickWand container that simply ends early, where the decoding library defines the recovery, only the clean-end and no-crash parts after an actual I/O error are claimed; seeks that fail inside FFmpeg's own demuxers, which hide them, are not claimed; and skipping the only image of a single-image format, which the library does without looking at its data, says nothing about that data.)",
 ["fault_sequences","crash_points","inputs","schedules"],"all sequences of transient and persistent read/seek faults and all truncation (writer crash) points, in all streams, for all histories of reads and seeks",
 "Tests have three truncated files and one nonexistent path; they cannot make a read or seek fail, and every fault position matters.",
 R,[("short-read and EOF checks","lib/image/*.c read paths"),("error mapping","lib/image/ffmpeg.c rderror_from_averror, -errno in open functions")],
 [("feof/ferror state of the stream","whether the end is an end or a failure","lib/image/*.c")],[OP,RD,SK])
p("C04","Damaged or inconsistent streams are rejected, never misread",
 "Whichever stored bytes of a stream are altered, a native-format (PGM, PFM, Y4M) stream whose header or frame header no longer follows its format (wrong signature, missing or non-numeric dimensions, a zero dimension, a maximum value or bit depth out of range, an unknown colour space, a broken frame marker) is rejected with an error, and one that is still well-formed is read as what its bytes now say. A frame whose own dimensions differ from those reported at opening is reported as an error and never delivered, and a PNG with altered bytes yields either an error or its exact original pixels.",
 ["inputs","fault_sequences"],"all single and multiple byte alterations, insertions and deletions at all positions of all streams, and all sequences with a frame of different size at any position",
 "Tests have one corrupt header per native format; which byte is damaged, and whether it is in the first or a later frame header, matters.",
 R,[("signature and header field checks","lib/image/pgm.c, pfm.c, y4m.c open and frame header functions"),("CRC checking","lib/image/libpng.c via libpng"),("dimension comparison per frame","lib/image/pfm.c, ffmpeg.c, magickwand.c")],None,[OP,RD,SK])
p("C05","Running out of memory anywhere is reported, contained and recoverable",
 "Whichever allocation fails, in any operation of the library, the operation reports an error (RDENOMEM when the library's own allocation failed) or still delivers its exact normal result; it never crashes, never returns a partial or wrong result as success, and leaves the output pointers it owns null with zero counts. Other handles and later operations, once memory is available again, are unaffected.",
 ["fault_sequences","inputs","histories"],"all positions and patterns (single, repeated, persistent) of allocation failure in all operations: open, read, seek, bulk read, analysis creation, analysis, results and the one-shot calls, with both FFT backends",
 "No test makes an allocation fail; every allocation site and its cleanup path needs its own failing call, in combination with the state the earlier ones left.",
 ["lib/image.c","lib/analysis.c","lib/methods.c","lib/resdetect.c","lib/transform/kiss_fft.c","lib/transform/fftw.c","lib/kissfft/kiss_fft.c"]+R[1:],
 [("null checks and unwinding gotos","all open functions, resdet_create_analysis, resdet_create_plan, generate_dimension_results")],None,["all public functions"])
p("C06","Every resource is released exactly once and nothing of the caller's is closed",
 "Over any history of calls and faults, once every handle has been closed or destroyed and every documented caller-owned buffer freed, all memory, streams, decoders, transform plans and library contexts the library acquired have been released, each exactly once; an operation that reports failure keeps nothing behind beyond what its still-open handle owned before. Standard input is never closed, and closing or destroying a null handle does nothing.",
 ["histories","fault_sequences","inputs"],"all histories of opening, reading, seeking, analysing, failing and closing in any order, with a fault (I/O, allocation, decoder, damaged byte) at any point",
 "Tests run only successful paths plus a few rejections and do not look at leaks at all.",
 R+["lib/analysis.c","lib/resdetect.c","lib/transform/kiss_fft.c","lib/transform/fftw.c"],
 [("close functions and error unwinding","lib/image/*.c, lib/image.c:open_image, resdet_destroy_analysis, resdet_free_plan")],None,["all public functions"])
p("C07","Hostile or failing input never breaks memory safety or stops progress",
 "For every byte sequence offered as an image in any format, and every combination with read faults, allocation failures and call histories (including calls made after an error was reported), the library reads and writes only memory it owns or was given, has no undefined behaviour, never aborts the process, and every call returns within a number of steps bounded by the size of the input and of the declared image.",
 ["inputs","fault_sequences","histories"],"all byte sequences, fault sequences and histories of calls, continued past errors until the handles are closed",
 "Tests use well-formed files and a few fixed broken ones, without sanitizers, and stop at the first error.",
 R+["lib/analysis.c","lib/methods.c"],[("bounds and size checks","lib/image/*.c, lib/resdet_internal.h:42-46"),("setjmp error recovery","lib/image/libjpeg.c, libpng.c")],None,["all public functions"])
p("C08","An analysis session reports the mean of its analysed frames",
 "At any point of a session, its results are, for each dimension, exactly the positions p with range <= p < length-range (range 1 for zerox) whose detection confidence averaged over all frames analysed so far reaches the threshold, with that average as a confidence between 0 and 1, sorted by descending confidence, followed by the input length with confidence -1; a threshold of 0 gives every position and a dimension too short for the range gives only its own length. Results may be asked for at any time, any number of times, for either dimension alone, without changing the session, do not depend on the order of the frames, and before any frame was analysed the answer is RDENOIMG. Parameters and method are fixed at creation, however the caller's parameter object changes or is freed afterwards.",
 ["histories","inputs","configurations"],"all histories of analysing frames and asking for results, interleaved over several sessions, for all frames, sizes, methods, ranges, thresholds and filter values, on both FFT backends",
 "Tests analyse a few fixed images once and look at the top results; the session state after many frames, interleaved queries and interleaved sessions is never compared with anything.",
 ["lib/analysis.c","lib/methods.c","lib/transform/kiss_fft.c","lib/transform/fftw.c"],[("accumulation per frame","lib/methods.c"),("division by the number of frames, threshold, sort","lib/analysis.c:128-160")],
 [("xresult/yresult, nimages","confidence sums and number of frames","lib/analysis.c"),("xbound/ybound","index of the first and last position","lib/analysis.c")],["resdet_create_analysis","resdet_analyze_image","resdet_analysis_results"])
p("C09","A failed analysis call leaves the session exactly as it was",
 "An analysis call that reports an error, because the frame holds a NaN or infinite value anywhere, because an argument is missing or because memory ran out at any point, contributes nothing: all later results of that session are the same as if the call had never been made, and the session stays usable. The same holds for a results call that fails: it returns null outputs and zero counts, and a later call returns the full results.",
 ["histories","fault_sequences"],"all histories in which any subset of the calls fails, for every cause and every point of failure inside the call",
 "Tests never make a call fail and then continue with the same session.",
 ["lib/analysis.c","lib/methods.c"],[("validation before accumulation","lib/analysis.c:resdet_analyze_image"),("scratch allocation of the orig method","lib/methods.c:detect_method_original")],
 [("xresult/yresult, nimages","must change together or not at all","lib/analysis.c")],["resdet_analyze_image","resdet_analysis_results"])
p("C10","The one-shot calls equal opening, reading and analysing step by step",
 "For every stream, parameter set and fault sequence, the bulk read returns exactly the frames, count and dimensions that opening and reading frame by frame would, the one-shot file detection returns exactly the results (or the error) of opening the file, analysing every frame in order and asking for the results, and the one-shot buffer detection returns those of analysing its contiguous images in order. On any error they return the error the step-by-step sequence would meet first, with null result arrays, null image buffer and zero result counts, and a sequence without frames is RDENOIMG for detection.",
 ["inputs","fault_sequences","histories"],"all streams and buffers of 0 to many frames, methods, parameters, transports and fault sequences",
 "Tests compare a few fixed files; none has a fault in a later frame, zero frames, or a skipped dimension.",
 ["lib/resdetect.c","lib/image.c"],[("composition of the sequential API","lib/resdetect.c"),("growth of the bulk buffer","lib/image.c:resdet_read_image")],None,["resdetect","resdetect_file","resdet_read_image"])
p("C11","Handles used concurrently from different threads do not affect each other",
 "Any number of threads, each using its own image handles and analysis sessions, get exactly the results, errors and callbacks they would get if they ran alone, for every interleaving of their execution, with any mixture of formats, methods, transforms and faults in the other threads (with the preparation of FFTW and MagickWand that the documentation asks for). Separate handles interleaved within a single thread are independent in the same way.",
 ["schedules","histories","fault_sequences"],"all interleavings, at the granularity of basic blocks of the library and of its calls into libc and decoder libraries, of threads with separate handles",
 "All tests are single-threaded and use one handle at a time.",
 ["lib/image.c","lib/analysis.c","lib/methods.c","lib/image_readers.c"]+R[1:]+["lib/transform/kiss_fft.c","lib/kissfft/kiss_fft.c"],[("no mutable shared state; everything in the handle","whole library; doc/libresdet.md Thread Safety")],None,["all public functions"])
p("C12","The command's exit status and output tell the truth under every input and fault",
 "The resdet command exits 0 and prints results only if it analysed exactly the requested frames (from the -o offset, at most -n of them) without any error, and then prints the results the library gives for those frames in the form of the chosen verbosity; on any error in opening, seeking, reading or analysing, with an offset past the end, or with no frames to analyse, it exits nonzero, prints a message on standard error and prints no results; results that cannot be written completely to standard output (a full disk) also give a nonzero status. With -v0 it prints no results and exits 0 exactly when a resolution other than the input's own was detected; progress goes to standard error only and does not change the results. -h, -V and -R list show the library's methods with their default thresholds, its version and its readers, and exit 0.",
 ["inputs","fault_sequences","configurations"],"all streams (file or standard input), fault sequences and combinations of the options -v -m -t -R -r -x -f -p -o -n",
 "The shell tests of the command run fixed files without faults and are not part of the stable test list; no test has a failure in a later frame, or an offset or limit at the edge of the sequence.",
 ["src/resdet.c"],[("frame loop, error and exit paths","src/resdet.c:main")],None,["exit status, standard output and standard error of resdet"])
p("C13","Size limits are enforced before any memory is committed",
 "An image, sequence or analysis whose dimensions or total pixel count exceed the configured pixel limit, or whose buffers could not be addressed, is rejected with RDETOOBIG (never with a wrapped-around size or a crash) before the library requests memory in proportion to the declared size (what the FFmpeg and MagickWand libraries allocate to find the dimensions is theirs), and no buffer is ever smaller than the image it is for. Images of every size up to the limit are accepted by every reader and by the analysis.",
 ["inputs","configurations","fault_sequences"],"all declared dimensions, including those whose products overflow, for all readers and the analysis, with the default limit and builds with a small limit, on files and pipes",
 "Tests use tiny images with the default limit only.",
 ["lib/resdet_internal.h","lib/image.c","lib/analysis.c","lib/image/y4m.c","lib/image/pfm.c","lib/transform/kiss_fft.c"],[("resdet_dims_exceed_limit","lib/resdet_internal.h:42-46, its uses")],None,["resdet_open_image","resdet_read_image","resdet_create_analysis"])
p("C14","The Python bindings report every failure and otherwise match the library",
 "For every history of calls and every injected failure, each Python call either returns exactly what the underlying library call produces (frames, dimensions, resolutions, booleans, progress numbers) or raises the exception that corresponds to its error: MemoryError for exhausted memory, OSError with the errno for system errors, and the documented class for each other error; invalid parameters are raised as errors, never silently replaced by defaults. Native memory and handles are released exactly once however objects are closed, used as context managers or collected, including when construction failed, and the interpreter never crashes (the caller's buffers being at least as large as the dimensions passed with them).",
 ["histories","fault_sequences","inputs"],"all histories of Python calls on Image, ImageBuffer, Analysis and the module functions, for all fault sequences in the library beneath",
 "The Python tests use a few fixed files and two error cases; none makes the library fail underneath or checks the release of native memory.",
 ["bindings/python/resdet.py","bindings/python/libresdet_api.py","bindings/python/resdet_numpy.py"],[("error to exception mapping","bindings/python/resdet.py:_rderror_to_exception"),("close/destroy in context managers and finalisers","bindings/python/resdet.py")],None,["public names of the Python modules"])
p("C15","Detection finds the resolution an image was upscaled from",
 "For an image enlarged with a traditional resampling filter, the original width and height are among the detected results with a high confidence, and images that were never enlarged yield no results above the default threshold in the typical case.",
 ["inputs"],"all images and traditional resampling methods","One sample image is tested; the claim is statistical over images.",
 ["lib/methods.c"],[("sign inversions around the original boundary","lib/methods.c")],None,["resdetect_file"])
p("C16","Both FFT backends and all precisions compute the same transform",
 "For every image size and content, the coefficients obtained with KISS FFT and with FFTW, at each coefficient precision, agree up to rounding and scale, so that detection results agree except where a confidence lies at the threshold.",
 ["inputs","configurations"],"all images, sizes and build configurations","Tests compare no coefficients across builds.",
 ["lib/transform/kiss_fft.c","lib/transform/fftw.c","lib/precision.h"],[("DCT-II by a mirrored real FFT","lib/transform/kiss_fft.c:kiss_dct")],None,["resdetect"])
p("C17","The JavaScript bindings mirror the library",
 "For every history of calls on resDetect, Analysis, Method, methods, libVersion and defaultRange, the JavaScript binding returns exactly the library's results for these arguments, or throws (the arrays being at least as large as the dimensions passed with them): the corresponding RDError (its code and message) when a call below failed, an out-of-memory error when memory ran out, an error when a number cannot be represented in the library's integer types or a parameter is invalid or unknown. Whatever the outcome, and wherever memory runs out or the WebAssembly memory grows, everything a call allocated in the WebAssembly heap is freed when it returns or throws, except a live analysis, which is destroyed exactly once after its object has become unreachable.",
 ["histories","inputs","fault_sequences","schedules"],"all histories of calls on the JavaScript functions and classes, all points of memory exhaustion and growth, all times at which finalizers may run","The JavaScript tests need an Emscripten build, make single calls and never run out of memory.",
 ["bindings/emscripten/resdet.mts"],[("wrapping of exported functions","bindings/emscripten/resdet.mts")],None,["public names of resdet.mjs"])
p("C18","Unusable arguments are refused without side effects; optional ones are optional",
 "Every library call given an argument it cannot use (a required pointer missing, a name of a reader or method that does not exist, a range of zero, a threshold that is not a number or outside 0 to 1, a filter value above 31, dimensions of zero, no images) reports the documented error, RDEPARAM for missing and invalid parameters, RDEUNSUPP for unknown types and readers, RDEINVAL for empty dimensions and RDENOIMG for no images; it clears the outputs it was given, keeps no memory or file, and leaves every open image, session and parameter object as it was, in any history of other calls. Leaving out an optional argument (error pointer, image buffer, progress function, method, parameters, results of one dimension) changes nothing else about what a call does. The tables of methods, readers and error messages are complete, distinct and agree with the lookups.",
 ["histories","inputs"],"all calls, all combinations of missing and unusable arguments, interleaved with all histories of good calls","The tests give bad arguments to fresh objects one at a time and never look at what else the call left behind.",
 ["lib/image.c","lib/analysis.c","lib/util.c","lib/resdetect.c"],[("argument checks of open, read and seek","lib/image.c"),("parameter setters, error messages, method lookup","lib/util.c"),("argument checks of sessions and results","lib/analysis.c"),("argument checks of one-shot calls","lib/resdetect.c"),("table of readers","lib/image_readers.c")],None,["resdet_error_str","resdet_get_method","resdet_open_image","resdet_parameters_set_range"])
p("C19","imgread writes exactly the frames it read, and its exit status tells the truth",
 "The imgread tool, given an input image and an output path, writes every frame of the input, in order, as a portable float map with a header of the image's dimensions and its rows from bottom to top, byte for byte, so that reading the output back gives the same frames; it exits 0 and prints nothing exactly if the whole input was read without an error and every byte of the output was written. On any failure (missing arguments, an input that cannot be opened, is damaged or fails while it is read, memory running out, an output that cannot be created or a disk that fills up) it exits nonzero with a message on standard error, and what it wrote until then is a part of the right output.",
 ["inputs","fault_sequences","crash_points"],"all streams, all points at which reading, memory or writing fails","No test runs imgread.",
 ["src/imgread.c"],[("frame loop, output and exit status","src/imgread.c:main")],None,["exit status, output file and standard error of imgread"])
p("C20","profile counts every image and method right and loses nothing silently",
 "For every dictionary of images with known widths and heights (given in any order), the profile tool reports, for every image in it and every method, how many resolutions were detected that are not known (+) and how many known ones were not detected (-), over all frames of the image and both dimensions, and the CPU time the detection took; the totals per method are the sums of the reported rows. Blank lines between entries and a missing newline at the end of the dictionary change nothing. An image that cannot be read is named on standard error and skipped with its two lists; a dictionary that cannot be opened or read, that ends inside an entry or has something other than numbers in a list, and a detection that fails, give a nonzero exit status; an exit status of 0 means that the whole dictionary was profiled and the whole report was written.",
 ["inputs","fault_sequences","schedules"],"all dictionaries, images, readings of the clock and faults on the dictionary, the images and memory","No test runs profile.",
 ["src/profile.c"],[("comparison of sorted lists","src/profile.c:diffres"),("parsing of the dictionary","src/profile.c:readres, main"),("times and totals","src/profile.c:diffts, main")],None,["exit status, standard output and standard error of profile"])
p("C21","stat sums up all detections and lists exactly those that stand out",
 "For every image and detection method, the stat tool reports for the width and the height the median confidence of the resolutions detected (the original size, which has no confidence, does not count), an inner and an outer fence, 3 and 6 interquartile ranges above the upper quartile, and exactly the detected resolutions whose confidence lies beyond the inner fence, as mild, or beyond the outer one, as extreme outliers, each once with its own size and confidence and its excess over the median; a dimension without detections has no numbers and no outliers. It exits 0 exactly if detection succeeded and the whole report was written; on any failure (no arguments, an input that cannot be opened, is damaged or fails while it is read, memory running out, an output that is full) it exits nonzero with a message on standard error.",
 ["inputs","fault_sequences"],"all images and methods, all points at which reading or memory fails","No test runs stat.",
 ["src/stat.c"],[("quantiles, fences and outliers","src/stat.c:statres"),("detection and exit status","src/stat.c:main")],None,["exit status, standard output and standard error of stat"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
