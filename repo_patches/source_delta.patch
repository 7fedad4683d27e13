From 0789d76d68d590fdc5f9ca1701e5f96381454961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 01/43] fix: set up PNG deinterlacing before updating the read
 info

png_set_interlace_handling() must be called before png_read_update_info(),
otherwise libpng returns the rows of an interlaced image without combining its
passes, giving an error or wrong pixels.
---
 lib/image/libpng.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/image/libpng.c b/lib/image/libpng.c
index c2faa7e..08788e1 100644
--- a/lib/image/libpng.c
+++ b/lib/image/libpng.c
@@ -16,6 +16,7 @@ static void pngerr_warning_fn(png_structp png_ptr, png_const_charp warning_msg)
 struct libpng_context {
 	FILE* f;
 	bool eof;
+	int passes;
 	png_structp png_ptr;
 	png_infop info_ptr;
 };
@@ -94,6 +95,8 @@ static void* libpng_reader_open(const char* filename, size_t* width, size_t* hei
 	else if(bit_depth < 8)
 		png_set_expand_gray_1_2_4_to_8(ctx->png_ptr);
 
+	ctx->passes = png_set_interlace_handling(ctx->png_ptr);
+
 	png_read_update_info(ctx->png_ptr,ctx->info_ptr);
 
 	return ctx;
@@ -122,9 +125,7 @@ static bool libpng_reader_read_frame(void* reader_ctx, float* image, size_t widt
 		goto end;
 	}
 
-	int passes = png_set_interlace_handling(ctx->png_ptr);
-
-	for(int i = 0; i < passes; i++) {
+	for(int i = 0; i < ctx->passes; i++) {
 		unsigned char* it = imagec;
 		for(size_t y = 0; y < height; y++, it += width * channels)
 			png_read_row(ctx->png_ptr,it,NULL);
-- 
2.43.0


From d7aaefda2dfa96d124635a2a7af878b225714361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 02/43] fix: keep the libjpeg error manager in the reader
 context

It was a compound literal of the open function, so any error or warning while
decoding the image used it after its lifetime had ended.
---
 lib/image/libjpeg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index 346e8aa..534774c 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -17,6 +17,7 @@ static void jerr_reset_error_mgr(j_common_ptr cinfo) {}
 struct libjpeg_context {
 	FILE* f;
 	bool eof;
+	struct jpeg_error_mgr jerr;
 	struct jpeg_decompress_struct cinfo;
 };
 
@@ -47,11 +48,12 @@ static void* libjpeg_reader_open(const char* filename, size_t* width, size_t* he
 		return NULL;
 	}
 
-	ctx->cinfo.err = &(struct jpeg_error_mgr){
+	ctx->jerr = (struct jpeg_error_mgr){
 		.error_exit      = jerr_error_exit,
 		.emit_message    = jerr_emit_message,
 		.reset_error_mgr = jerr_reset_error_mgr
 	};
+	ctx->cinfo.err = &ctx->jerr;
 
 	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
 		*error = RDEINVAL;
-- 
2.43.0


From 7f8066524e0cade2b181e030ca8ad4f45af5231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 03/43] fix: report read errors in the middle of a JPEG

libjpeg's stdio source treats a failed read like the end of the file, so the
image was returned with its remainder filled in and no error.
---
 lib/image/libjpeg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index 534774c..aca90e3 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -100,6 +100,12 @@ static bool libjpeg_reader_read_frame(void* reader_ctx, float* image, size_t wid
 			rows[i] = it+i*ctx->cinfo.output_width;
 		it += jpeg_read_scanlines(&ctx->cinfo,rows,ctx->cinfo.rec_outbuf_height) * ctx->cinfo.output_width;
 	}
+	// libjpeg takes a read error for the end of the file and fills in the rest of the image
+	if(ferror(ctx->f)) {
+		*error = RDEINVAL;
+		goto end;
+	}
+
 	for(size_t i = 0; i < width * height; i++)
 		image[i] = imagec[i]/255.f;
 
-- 
2.43.0


From 84e924a550fbbfbd98d796624e87f7daa11a7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 04/43] fix: detect the end of the file when skipping by
 seeking

Seeking past the end of a file does not fail, so an incomplete frame was read
or skipped as if it were complete from a file, but not from a pipe.
---
 lib/image.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/image.c b/lib/image.c
index 6fb0ac3..618e25f 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -18,8 +18,13 @@ RDError resdet_fskip(FILE* f, uint64_t offset, void* buf) {
 		if(fread(buf,1,offset,f) != offset)
 			return RDEINVAL;
 	}
-	else if(fseek(f,offset,SEEK_CUR) < 0)
-		return -errno;
+	else if(offset) {
+		// seeking past the end of the file succeeds, so make sure the last byte is there
+		if(fseek(f,offset-1,SEEK_CUR) < 0)
+			return -errno;
+		if(fgetc(f) == EOF)
+			return RDEINVAL;
+	}
 	return RDEOK;
 }
 
-- 
2.43.0


From e1ccd668fb93617d1c2b7a0a4096bfbdb3fa7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 05/43] fix: seek correctly in PFM sequences

Seeking by 0 frames made the next read look for a frame header in the middle
of a frame, and the size of the first frame was used for all skipped frames
although each of them may be gray or RGB.
---
 lib/image/pfm.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index da1f103..3f1f827 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -171,13 +171,16 @@ static bool pfm_reader_read_frame(void* reader_ctx, float* image, size_t width,
 static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct pfm_context* ctx = reader_ctx;
 
-	size_t imgsize = width*height;
-	if(ctx->format == 'F')
-		imgsize *= 3;
+	// each frame may be gray or RGB
+	if(width*height > SIZE_MAX/(3*sizeof(float))) {
+		*error = RDETOOBIG;
+		return false;
+	}
+	size_t maxsize = width*height*3;
 
 	float* buf = NULL;
-	bool seekable = imgsize*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
-	if(!seekable && !(buf = malloc(imgsize*sizeof(float)))) {
+	bool seekable = maxsize*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
+	if(!seekable && !(buf = malloc(maxsize*sizeof(float)))) {
 		*error = RDENOMEM;
 		return false;
 	}
@@ -187,6 +190,7 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 		if(!(ret = read_header(ctx,width,height,error)))
 			break;
 
+		size_t imgsize = ctx->format == 'F' ? maxsize : maxsize/3;
 		if((*error = resdet_fskip(ctx->f,imgsize*sizeof(float),buf))) {
 			ret = false;
 			break;
@@ -197,8 +201,6 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 			progress(progress_ctx,i+1);
 	}
 
-	ctx->header_consumed = false;
-
 	if(!seekable)
 		free(buf);
 
-- 
2.43.0


From 419915b4c4ca930b1ddda11070c7f7038b551a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 06/43] fix: use the right chroma plane sizes for 4:1:1 and
 4:4:4 with alpha

4:1:1 has a quarter of the horizontal and the full vertical resolution, and
the check for 444alpha was never reached.
---
 lib/image/y4m.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 2053c4c..fd2c85e 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -86,14 +86,16 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		ctx->uv_plane_size = 0;
 	}
 	else {
-		if(!strncmp(csp,"420",3) || !strncmp(csp,"411",3))
+		if(!strncmp(csp,"420",3))
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
+		else if(!strncmp(csp,"411",3))
+			ctx->uv_plane_size = (*width+3)/4 * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
-		else if(!strncmp(csp,"444",3))
-			ctx->uv_plane_size = *width * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
 			ctx->uv_plane_size = *width * *height * 3;
+		else if(!strncmp(csp,"444",3))
+			ctx->uv_plane_size = *width * *height * 2;
 		else
 			goto invalid;
 
-- 
2.43.0


From 6a7833e360dad7173b3f6f527bc3b9a57a2edf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 07/43] fix: accept Y4M images up to the pixel limit

The planes of one image were counted as four images, so those larger than a
quarter of PIXEL_MAX were rejected.
---
 lib/image/y4m.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index fd2c85e..0387207 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -72,7 +72,7 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 
 	if(!(*width && *height))
 		goto invalid;
-	if(resdet_dims_exceed_limit(*width,*height,4,unsigned char)) {
+	if(resdet_dims_exceed_limit(*width,*height,1,unsigned char[4])) {
 		*error = RDETOOBIG;
 		goto error;
 	}
-- 
2.43.0


From 1df96319a66507202a33cbb67f9317a7e33fc26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 08/43] fix: reject PGM files with a wrong signature or maximum
 value

fscanf() does not return a negative value if the signature does not match,
so anything that starts with three numbers was accepted; a maximum value of 0
gave infinite or NaN pixels, and 65537 was taken for 1.
---
 lib/image/pgm.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 51e6ed1..173f0f5 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -50,17 +50,23 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 		goto error;
 	}
 
+	char magic;
+	size_t depth;
 	if(
-	   fscanf(ctx->f,"P5 ") < 0 ||
+	   fscanf(ctx->f,"P%c",&magic) != 1 ||
+	   magic != '5' ||
+	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
+	   fscanf(ctx->f,"%zu %zu %zu",width,height,&depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-	   ctx->depth > 255
+	   depth < 1 || depth > 255
 	) {
 		*error = RDEINVAL;
 		goto error;
 	}
 
+	ctx->depth = depth;
+
 	return ctx;
 
 error:
-- 
2.43.0


From aab5cfe4832f822d2026d3eaaa78d159a745e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 09/43] fix: don't accept numbers cut short by a read error in
 headers

---
 lib/image/pfm.c | 4 +++-
 lib/image/pgm.c | 1 +
 lib/image/y4m.c | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 3f1f827..956dde9 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -104,7 +104,8 @@ static void* pfm_reader_open(const char* filename, size_t* width, size_t* height
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %f",width,height,&ctx->endianness_scale) != 3 ||
-	   !isspace(fgetc(ctx->f))
+	   !isspace(fgetc(ctx->f)) ||
+	   ferror(ctx->f)
 	) {
 		*error = RDEINVAL;
 		goto error;
@@ -139,6 +140,7 @@ static bool read_header(struct pfm_context* ctx, size_t width, size_t height, RD
 		!skip_comments(ctx->f) ||
 	    fscanf(ctx->f,"%zu %zu %f",&next_width,&next_height,&next_endianness_scale) != 3 ||
 	    !isspace(fgetc(ctx->f)) ||
+	    ferror(ctx->f) ||
 	    next_width != width ||
 		next_height != height
 	) {
diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 173f0f5..e19e0a0 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -59,6 +59,7 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %zu",width,height,&depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
+	   ferror(ctx->f) ||
 	   depth < 1 || depth > 255
 	) {
 		*error = RDEINVAL;
diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 0387207..ed3e792 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -70,7 +70,7 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		}
 
 
-	if(!(*width && *height))
+	if(ferror(ctx->f) || !(*width && *height))
 		goto invalid;
 	if(resdet_dims_exceed_limit(*width,*height,1,unsigned char[4])) {
 		*error = RDETOOBIG;
-- 
2.43.0


From 1e38c1e11c062ecdc554446e68f2f6f6e3a9e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 10/43] fix: report the actual errors when opening with FFmpeg
 fails

---
 lib/image/ffmpeg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index df03733..f3fa974 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -72,11 +72,12 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	if((averr = (ctx->stream_index = av_find_best_stream(ctx->fmt,AVMEDIA_TYPE_VIDEO,-1,-1,&dec,0))) < 0)
 		goto error;
 
+	averr = 0;
 	if(!(ctx->codec = avcodec_alloc_context3(dec))) {
 		*error = RDENOMEM;
 		goto error;
 	}
-	if((averr = avcodec_parameters_to_context(ctx->codec, ctx->fmt->streams[ctx->stream_index]->codecpar) < 0))
+	if((averr = avcodec_parameters_to_context(ctx->codec, ctx->fmt->streams[ctx->stream_index]->codecpar)) < 0)
 		goto error;
 
 	if((averr = avcodec_open2(ctx->codec,dec,NULL)))
-- 
2.43.0


From 1a99bf0e9f307e6d01db1feeecec053e082eb60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 11/43] fix: don't mistake read errors for the end of the
 stream with FFmpeg

---
 lib/image/ffmpeg.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index f3fa974..2ab3c0e 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -122,8 +122,15 @@ static int read_frame(struct ffmpeg_context* ctx) {
 	while((averr = avcodec_receive_frame(ctx->codec, ctx->swsframe)) == AVERROR(EAGAIN)) {
 		while(!(averr = av_read_frame(ctx->fmt,ctx->packet)) && ctx->packet->stream_index != ctx->stream_index)
 			av_packet_unref(ctx->packet);
-		if(averr)
+		// demuxers may turn an I/O error into the end of the file or a short packet
+		if(ctx->fmt->pb && ctx->fmt->pb->error < 0) {
+			av_packet_unref(ctx->packet);
+			return ctx->fmt->pb->error;
+		}
+		if(averr == AVERROR_EOF)
 			averr = avcodec_send_packet(ctx->codec, NULL);
+		else if(averr)
+			break;
 		else {
 			averr = avcodec_send_packet(ctx->codec, ctx->packet);
 			av_packet_unref(ctx->packet);
-- 
2.43.0


From 574c3960b2987c679e118ad16b4174b3f9b2fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 12/43] fix: reject frames of another size or pixel format with
 FFmpeg

---
 lib/image/ffmpeg.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index 2ab3c0e..5a9ffc6 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -18,6 +18,7 @@ struct ffmpeg_context {
 	struct SwsContext* sws;
 	AVFrame* swsframe,* frame;
 	AVPacket* packet;
+	int width, height, format; // what the scaler was set up for
 };
 
 static RDError rderror_from_averror(int averr) {
@@ -104,8 +105,12 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	ctx->frame->height = ctx->codec->height;
 	ctx->frame->format = little_endian() ? AV_PIX_FMT_GRAYF32LE : AV_PIX_FMT_GRAYF32BE;
 
-	*width = ctx->codec->width;
-	*height = ctx->codec->height;
+	ctx->width = ctx->codec->width;
+	ctx->height = ctx->codec->height;
+	ctx->format = ctx->codec->pix_fmt;
+
+	*width = ctx->width;
+	*height = ctx->height;
 
 	return ctx;
 
@@ -138,6 +143,9 @@ static int read_frame(struct ffmpeg_context* ctx) {
 		if(averr)
 			break;
 	}
+	// streams may change these between frames
+	if(!averr && (ctx->swsframe->width != ctx->width || ctx->swsframe->height != ctx->height || ctx->swsframe->format != ctx->format))
+		averr = AVERROR_INVALIDDATA;
 	return averr;
 }
 
-- 
2.43.0


From c070ae9be30ce1a89e0c69143b4aa82a656cc05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 13/43] fix: handle the end of the sequence and images of
 another size with MagickWand

---
 lib/image/magickwand.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 0cb4f2b..c08fdbe 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -19,6 +19,7 @@
 
 struct magickwand_context {
 	MagickWand* wand;
+	bool eof;
 };
 
 static void magickwand_reader_close(void* reader_ctx) {
@@ -36,6 +37,7 @@ static void* magickwand_reader_open(const char* filename, size_t* width, size_t*
 		goto error;
 	}
 
+	ctx->eof = false;
 	ctx->wand = NewMagickWand();
 	if(MagickReadImage(ctx->wand,filename) == MagickFalse) {
 		ExceptionType ex;
@@ -76,20 +78,38 @@ error:
 	return NULL;
 }
 
+static bool next_image(struct magickwand_context* ctx, size_t width, size_t height, RDError* error) {
+	// moving past the end again would start over
+	if(ctx->eof || MagickNextImage(ctx->wand) == MagickFalse) {
+		ctx->eof = true;
+		return false;
+	}
+
+	if(MagickGetImageWidth(ctx->wand) != width || MagickGetImageHeight(ctx->wand) != height) {
+		*error = RDEINVAL;
+		return false;
+	}
+
+	return true;
+}
+
 static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 
-	if(MagickNextImage(ctx->wand) == MagickFalse)
+	if(!next_image(ctx,width,height,error))
 		return false;
 
-	MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image);
+	if(MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image) == MagickFalse) {
+		*error = RDEINVAL;
+		return false;
+	}
 	return true;
 }
 
 static bool magickwand_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 	for(uint64_t i = 0; i < offset; i++) {
-		if(MagickNextImage(ctx->wand) == MagickFalse)
+		if(!next_image(ctx,width,height,error))
 			return false;
 		if(progress)
 			progress(progress_ctx,i+1);
-- 
2.43.0


From 3f641f34d1ecb00bcf485aaa744af983c593f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 14/43] fix: always report an error when opening with
 MagickWand fails

---
 lib/image/magickwand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index c08fdbe..768baf4 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -44,7 +44,7 @@ static void* magickwand_reader_open(const char* filename, size_t* width, size_t*
 		char* exception = MagickGetException(ctx->wand,&ex);
 		switch(ex) {
 			case BlobError:
-			case FileOpenError: *error = -errno; break;
+			case FileOpenError: *error = errno ? -errno : RDEINVAL; break;
 			case ResourceLimitError:
 			case ResourceLimitFatalError: *error = RDENOMEM; break;
 			case MissingDelegateError:
-- 
2.43.0


From 4d256e39ffa8309a4a7fd14b3570d4e25ac67636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 15/43] fix: free everything when creating a KISS FFT plan
 fails

---
 lib/transform/kiss_fft.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transform/kiss_fft.c b/lib/transform/kiss_fft.c
index c2d8edf..478c105 100644
--- a/lib/transform/kiss_fft.c
+++ b/lib/transform/kiss_fft.c
@@ -83,12 +83,12 @@ void resdet_transform(resdet_plan* p) {
 
 void resdet_free_plan(resdet_plan* p) {
 	if(p) {
-		free(p->cfg[0]);
-		free(p->shift[0]);
-		if(p->width != p->height) {
+		if(p->cfg[1] != p->cfg[0])
 			free(p->cfg[1]);
+		if(p->shift[1] != p->shift[0])
 			free(p->shift[1]);
-		}
+		free(p->cfg[0]);
+		free(p->shift[0]);
 		free(p->mirror);
 		free(p->F);
 		free(p);
-- 
2.43.0


From efdcde34a38a27209ef01d625ca7c17d4ecb08a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 16/43] fix: keep the previous results when analyzing a frame
 fails halfway

---
 lib/analysis.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/analysis.c b/lib/analysis.c
index 7317ffc..e3171b5 100644
--- a/lib/analysis.c
+++ b/lib/analysis.c
@@ -103,6 +103,10 @@ RESDET_API RDError resdet_analyze_image(RDAnalysis* analysis, float* image) {
 	RDError ret = RDEOK;
 	size_t width = analysis->width, height = analysis->height;
 
+	// a method may fail in the second dimension, in which case the first is restored
+	size_t xsize = 0;
+	intermediate* xprev = NULL;
+
 	for(rdint_index i = 0; i < width*height; i++) {
 		if(!isfinite(image[i])) {
 			ret = RDEINVAL;
@@ -111,18 +115,31 @@ RESDET_API RDError resdet_analyze_image(RDAnalysis* analysis, float* image) {
 		analysis->f[i] = image[i];
 	}
 
+	if(analysis->xresult && analysis->yresult) {
+		xsize = (analysis->xbound[1] - analysis->xbound[0]) * sizeof(*analysis->xresult);
+		if(!(xprev = malloc(xsize))) {
+			ret = RDENOMEM;
+			goto end;
+		}
+		memcpy(xprev,analysis->xresult,xsize);
+	}
+
 	resdet_transform(analysis->p);
 
 	if(analysis->xresult &&
 	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,width,height,width,1,analysis->params.range,analysis->xresult,analysis->xbound,analysis->xbound+1)) != RDEOK)
 		goto end;
 	if(analysis->yresult &&
-	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,height,width,1,width,analysis->params.range,analysis->yresult,analysis->ybound,analysis->ybound+1)) != RDEOK)
+	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,height,width,1,width,analysis->params.range,analysis->yresult,analysis->ybound,analysis->ybound+1)) != RDEOK) {
+		if(xprev)
+			memcpy(analysis->xresult,xprev,xsize);
 		goto end;
+	}
 
 	analysis->nimages++;
 
 end:
+	free(xprev);
 	return ret;
 }
 
-- 
2.43.0


From 30cde235574157a83c22f8c0c247db0decc70b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 17/43] fix: allocate KISS FFT's scratch space up front instead
 of during the transform

---
 lib/kissfft/_kiss_fft_guts.h |  1 +
 lib/kissfft/kiss_fft.c       | 24 +++++++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/kissfft/_kiss_fft_guts.h b/lib/kissfft/_kiss_fft_guts.h
index 4bd8d1c..ae44ee4 100644
--- a/lib/kissfft/_kiss_fft_guts.h
+++ b/lib/kissfft/_kiss_fft_guts.h
@@ -28,6 +28,7 @@ struct kiss_fft_state{
     int nfft;
     int inverse;
     int factors[2*MAXFACTORS];
+    kiss_fft_cpx * scratch; /* for the largest generic factor, within the same allocation */
     kiss_fft_cpx twiddles[1];
 };
 
diff --git a/lib/kissfft/kiss_fft.c b/lib/kissfft/kiss_fft.c
index 58c24a0..09e0037 100644
--- a/lib/kissfft/kiss_fft.c
+++ b/lib/kissfft/kiss_fft.c
@@ -202,11 +202,15 @@ static void kf_bfly_generic(
     kiss_fft_cpx t;
     int Norig = st->nfft;
 
+#ifdef _OPENMP
     kiss_fft_cpx * scratch = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);
     if (scratch == NULL){
         KISS_FFT_ERROR("Memory allocation failed.");
         return;
     }
+#else
+    kiss_fft_cpx * scratch = st->scratch;
+#endif
 
     for ( u=0; u<m; ++u ) {
         k=u;
@@ -229,7 +233,9 @@ static void kf_bfly_generic(
             k += m;
         }
     }
+#ifdef _OPENMP
     KISS_FFT_TMP_FREE(scratch);
+#endif
 }
 
 static
@@ -339,8 +345,20 @@ kiss_fft_cfg kiss_fft_alloc(int nfft,int inverse_fft,void * mem,size_t * lenmem
     KISS_FFT_ALIGN_CHECK(mem)
 
     kiss_fft_cfg st=NULL;
-    size_t memneeded = KISS_FFT_ALIGN_SIZE_UP(sizeof(struct kiss_fft_state)
-        + sizeof(kiss_fft_cpx)*(nfft-1)); /* twiddle factors*/
+    int i, maxfactor=0, factors[2*MAXFACTORS];
+    size_t memneeded;
+
+    kf_factor(nfft,factors);
+    for (i=0;;i+=2) {
+        if (factors[i] > maxfactor)
+            maxfactor = factors[i];
+        if (factors[i+1] <= 1)
+            break;
+    }
+
+    memneeded = KISS_FFT_ALIGN_SIZE_UP(sizeof(struct kiss_fft_state)
+        + sizeof(kiss_fft_cpx)*(nfft-1) /* twiddle factors*/
+        + sizeof(kiss_fft_cpx)*maxfactor); /* scratch */
 
     if ( lenmem==NULL ) {
         st = ( kiss_fft_cfg)KISS_FFT_MALLOC( memneeded );
@@ -350,9 +368,9 @@ kiss_fft_cfg kiss_fft_alloc(int nfft,int inverse_fft,void * mem,size_t * lenmem
         *lenmem = memneeded;
     }
     if (st) {
-        int i;
         st->nfft=nfft;
         st->inverse = inverse_fft;
+        st->scratch = st->twiddles + nfft;
 
         for (i=0;i<nfft;++i) {
             const double pi=3.141592653589793238462643383279502884197169399375105820974944;
-- 
2.43.0


From 549dfc85fd021a84f6e9149baead1ee7e84a2f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 18/43] fix: read sequences up to the pixel limit in bulk

---
 lib/image.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image.c b/lib/image.c
index 618e25f..74cf0cd 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -233,7 +233,9 @@ RESDET_API RDError resdet_read_image(const char* filename, const char* filetype,
 		(*nimages)++;
 
 		if(resdet_dims_exceed_limit(*width,*height,*nimages+1,float)) {
-			error = RDETOOBIG;
+			// only an error if there is another image
+			if(resdet_seek_frame(image,1,NULL,NULL,&error))
+				error = RDETOOBIG;
 			break;
 		}
 
-- 
2.43.0


From f9ff713586fdd6a64756a73c8abf99afec43ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 19/43] fix: return no images when reading in bulk fails

---
 lib/image.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/image.c b/lib/image.c
index 74cf0cd..34e0e9a 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -251,6 +251,7 @@ RESDET_API RDError resdet_read_image(const char* filename, const char* filetype,
 	if(error) {
 		free(*images);
 		*images = NULL;
+		*nimages = 0;
 	}
 
 	resdet_close_image(image);
-- 
2.43.0


From a9e2ed2efe45abd818022b927de4f37dfd9de103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 20/43] fix: raise errors for invalid parameters in the Python
 bindings

---
 bindings/python/resdet.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 4f7f154..9fafd2d 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -298,13 +298,28 @@ def _dict_to_rdparameters(parameters: dict) -> RDParametersPtr:
     if extra_keys:
         raise Exception(f"Unrecognized parameters {', '.join(extra_keys)}")
 
+    # ctypes truncates integers that are out of range
+    if "range" in parameters and parameters["range"] != ctypes.c_size_t(parameters["range"]).value or \
+       "compression_filter" in parameters and parameters["compression_filter"] != ctypes.c_uint8(parameters["compression_filter"]).value:
+        raise _rderror_to_exception(Error.PARAM)
+
     rdparameters = libresdet.resdet_alloc_default_parameters()
-    if "range" in parameters:
-        libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
-    if "threshold" in parameters:
-        libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
-    if "compression_filter" in parameters:
-        libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+    if not rdparameters:
+        raise _rderror_to_exception(Error.NOMEM)
+
+    try:
+        err = Error.OK
+        if "range" in parameters:
+            err = libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
+        if not err and "threshold" in parameters:
+            err = libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
+        if not err and "compression_filter" in parameters:
+            err = libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+        if err:
+            raise _rderror_to_exception(err)
+    except:
+        libc.free(rdparameters)
+        raise
 
     return rdparameters
 
-- 
2.43.0


From 5381be45867ebd1ce920e038fb5b4d1805b3a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 21/43] fix: keep Python image buffers within their memory

---
 bindings/python/resdet.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 9fafd2d..b3c239a 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -101,7 +101,10 @@ class ImageBuffer:
 
     @classmethod
     def with_dimensions(cls, width: int, height: int, nimages: int = 1) -> "ImageBuffer":
-        imagebuffer = cls(ctypes.cast(libc.malloc(width*height*ctypes.sizeof(ctypes.c_float)), ctypes.POINTER(ctypes.c_float)))
+        data = libc.malloc(width*height*nimages*ctypes.sizeof(ctypes.c_float))
+        if not data:
+            raise _rderror_to_exception(Error.NOMEM)
+        imagebuffer = cls(ctypes.cast(data, ctypes.POINTER(ctypes.c_float)))
         imagebuffer.width = width
         imagebuffer.height = height
         imagebuffer.nimages = nimages
@@ -126,9 +129,12 @@ class ImageBuffer:
             if index[2] >= self.width:
                 raise IndexError(f"x index {index[2]} is out of range for width {self.width}")
 
+            if min(index) < 0:
+                raise IndexError(f"Negative index {index} for image")
+
             index = (index[0] * self.height + index[1]) * self.width + index[2]
 
-        if index >= self.width * self.height * self.nimages:
+        if index < 0 or index >= self.width * self.height * self.nimages:
             raise IndexError(f"Index {index} is out of bounds for size {self.width}x{self.height}x{self.nimages}")
         return self.data[index]
 
-- 
2.43.0


From cbb357e51dbd367c3c13ab79bbbfd7b6676533df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 22/43] fix: release everything when Python objects are reused
 or fail to construct

---
 bindings/python/resdet.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index b3c239a..130b20a 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -141,6 +141,7 @@ class ImageBuffer:
     def close(self) -> None:
         libc.free(self.data)
         self.data = ctypes.POINTER(ctypes.c_float)()
+        self._as_parameter_ = self.data
 
     def __enter__(self) -> "ImageBuffer":
         return self
@@ -155,12 +156,15 @@ class ImageBuffer:
 class Image:
     width: int
     height: int
+    _rdimage = None
 
     def __init__(self, filename: str | os.PathLike, type: Optional[str] = None, image_reader: Optional[str] = None, buffer: Optional[ImageBuffer] = None) -> None:
         type_arg = type.encode("utf-8") if type else None
         width = ctypes.c_size_t()
         height = ctypes.c_size_t()
         err = ctypes.c_int()
+        if buffer:
+            buffer.close() # opening replaces its data
         buf = ctypes.byref(buffer.data) if buffer else None
         if image_reader:
             self._rdimage = libresdet.resdet_open_image_with_reader(str(filename).encode("utf-8"), image_reader.encode("utf-8"), width, height, buf, err)
@@ -211,11 +215,15 @@ class Image:
         self.close_image()
 
 class Analysis:
+    _rdanalysis = None
+
     def __init__(self, width: int, height: int, method: Optional[Method] = None, parameters: dict = {}) -> None:
         params_arg = _dict_to_rdparameters(parameters)
         err = ctypes.c_int()
-        self._rdanalysis = libresdet.resdet_create_analysis(method, width, height, params_arg, err)
-        libc.free(params_arg)
+        try:
+            self._rdanalysis = libresdet.resdet_create_analysis(method, width, height, params_arg, err)
+        finally:
+            libc.free(params_arg)
 
         if not self._rdanalysis:
             raise _rderror_to_exception(err)
@@ -383,9 +391,10 @@ def resdetect(image, nimages: int, width: int, height: int, method: Optional[Met
     countw = ctypes.c_size_t()
     counth = ctypes.c_size_t()
 
-    err = libresdet.resdetect(image, nimages, width, height, resw, countw, resh, counth, method, params_arg)
-
-    libc.free(params_arg)
+    try:
+        err = libresdet.resdetect(image, nimages, width, height, resw, countw, resh, counth, method, params_arg)
+    finally:
+        libc.free(params_arg)
 
     if err:
         raise _rderror_to_exception(err)
@@ -421,9 +430,10 @@ def resdetect_file(filename: str | os.PathLike, type: Optional[str] = None, meth
     countw = ctypes.c_size_t()
     counth = ctypes.c_size_t()
 
-    err = libresdet.resdetect_file(str(filename).encode("utf-8"), type_arg, resw, countw, resh, counth, method, params_arg)
-
-    libc.free(params_arg)
+    try:
+        err = libresdet.resdetect_file(str(filename).encode("utf-8"), type_arg, resw, countw, resh, counth, method, params_arg)
+    finally:
+        libc.free(params_arg)
 
     if err:
         raise _rderror_to_exception(err)
-- 
2.43.0


From ea5544b6b408e68c209c041f14ad87686b133fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 23/43] fix: use the dimensions of the first image with
 MagickWand

---
 lib/image/magickwand.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 768baf4..faed8cf 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -66,11 +66,12 @@ static void* magickwand_reader_open(const char* filename, size_t* width, size_t*
 		goto error;
 	}
 
+	// reading leaves the wand at the last image
+	MagickResetIterator(ctx->wand);
+
 	*width = MagickGetImageWidth(ctx->wand);
 	*height = MagickGetImageHeight(ctx->wand);
 
-	MagickResetIterator(ctx->wand);
-
 	return ctx;
 
 error:
-- 
2.43.0


From 8ecbf0d76b33625bc33cd49200d8e31d12038621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 24/43] fix: fail when the results can't be written

---
 src/resdet.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resdet.c b/src/resdet.c
index cd6cf31..1e740b2 100644
--- a/src/resdet.c
+++ b/src/resdet.c
@@ -285,5 +285,10 @@ end:
 	if(ret)
 		return ret;
 
+	if(fflush(stdout) || ferror(stdout)) {
+		fputs("Error writing the results\n",stderr);
+		return 1;
+	}
+
 	return !verbosity ? (cw==1 && ch==1) : 0;
 }
-- 
2.43.0


From 6d09e99773488a5df50c8656d52b174a4056bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 25/43] fix: check the limit before libjpeg allocates memory
 for the image

---
 lib/image/libjpeg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index aca90e3..72d6077 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -63,6 +63,11 @@ static void* libjpeg_reader_open(const char* filename, size_t* width, size_t* he
 	jpeg_create_decompress(&ctx->cinfo);
 	jpeg_stdio_src(&ctx->cinfo,ctx->f);
 	jpeg_read_header(&ctx->cinfo,TRUE);
+	// libjpeg holds all of a progressive image in memory
+	if(resdet_dims_exceed_limit(ctx->cinfo.image_width,ctx->cinfo.image_height,1,float)) {
+		*error = RDETOOBIG;
+		goto error;
+	}
 	ctx->cinfo.out_color_space = JCS_GRAYSCALE;
 	jpeg_start_decompress(&ctx->cinfo);
 
-- 
2.43.0


From 8ecb1890b9486fea63841fdec5f3603f9a42ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 26/43] fix: don't truncate sizes and offsets in the Python
 bindings

---
 bindings/python/resdet.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 130b20a..5c44da6 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -101,7 +101,12 @@ class ImageBuffer:
 
     @classmethod
     def with_dimensions(cls, width: int, height: int, nimages: int = 1) -> "ImageBuffer":
-        data = libc.malloc(width*height*nimages*ctypes.sizeof(ctypes.c_float))
+        for dimension in (width, height, nimages):
+            _check_size(dimension)
+        size = width*height*nimages*ctypes.sizeof(ctypes.c_float)
+        if size > ctypes.c_size_t(-1).value:
+            raise _rderror_to_exception(Error.NOMEM)
+        data = libc.malloc(size)
         if not data:
             raise _rderror_to_exception(Error.NOMEM)
         imagebuffer = cls(ctypes.cast(data, ctypes.POINTER(ctypes.c_float)))
@@ -188,6 +193,9 @@ class Image:
         return ret
 
     def seek_frame(self, offset: int, progress: Optional[Callable[[int], None]] = None):
+        if offset != ctypes.c_uint64(offset).value:
+            raise _rderror_to_exception(Error.PARAM)
+
         progress_cb_type = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_uint64)
         if progress:
             progress_arg = progress_cb_type(lambda _, frameno: progress(frameno))
@@ -218,6 +226,8 @@ class Analysis:
     _rdanalysis = None
 
     def __init__(self, width: int, height: int, method: Optional[Method] = None, parameters: dict = {}) -> None:
+        _check_size(width)
+        _check_size(height)
         params_arg = _dict_to_rdparameters(parameters)
         err = ctypes.c_int()
         try:
@@ -304,6 +314,11 @@ def _rderror_to_exception(err: ctypes.c_int | int) -> Exception:
         case _: # this shouldn't happen
             return Exception(msg)
 
+def _check_size(value: int) -> None:
+    # ctypes truncates integers that are out of range
+    if value != ctypes.c_size_t(value).value:
+        raise _rderror_to_exception(Error.PARAM)
+
 def _dict_to_rdparameters(parameters: dict) -> RDParametersPtr:
     if not parameters:
         return None
@@ -384,6 +399,8 @@ def read_image(filename: str | os.PathLike, type: Optional[str] = None) -> Image
 
 @singledispatch
 def resdetect(image, nimages: int, width: int, height: int, method: Optional[Method] = None, parameters: dict = {}) -> dict:
+    for size in (nimages, width, height):
+        _check_size(size)
     params_arg = _dict_to_rdparameters(parameters)
 
     resw = ctypes.POINTER(RDResolution)()
-- 
2.43.0


From db5201fe740f491443918e93b448cd3c38512cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 27/43] fix: encode file names like the rest of Python does in
 the bindings

---
 bindings/python/resdet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 5c44da6..6182a24 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -172,9 +172,9 @@ class Image:
             buffer.close() # opening replaces its data
         buf = ctypes.byref(buffer.data) if buffer else None
         if image_reader:
-            self._rdimage = libresdet.resdet_open_image_with_reader(str(filename).encode("utf-8"), image_reader.encode("utf-8"), width, height, buf, err)
+            self._rdimage = libresdet.resdet_open_image_with_reader(os.fsencode(filename), image_reader.encode("utf-8"), width, height, buf, err)
         else:
-            self._rdimage = libresdet.resdet_open_image(str(filename).encode("utf-8"), type_arg, width, height, buf, err)
+            self._rdimage = libresdet.resdet_open_image(os.fsencode(filename), type_arg, width, height, buf, err)
         if not self._rdimage:
             raise _rderror_to_exception(err)
 
@@ -389,7 +389,7 @@ def read_image(filename: str | os.PathLike, type: Optional[str] = None) -> Image
     height = ctypes.c_size_t()
     nimages = ctypes.c_size_t()
     buf = ImageBuffer()
-    err = libresdet.resdet_read_image(str(filename).encode("utf-8"), type_arg, buf.data, nimages, width, height)
+    err = libresdet.resdet_read_image(os.fsencode(filename), type_arg, buf.data, nimages, width, height)
     if err:
         raise _rderror_to_exception(err)
     buf.width = width.value
@@ -448,7 +448,7 @@ def resdetect_file(filename: str | os.PathLike, type: Optional[str] = None, meth
     counth = ctypes.c_size_t()
 
     try:
-        err = libresdet.resdetect_file(str(filename).encode("utf-8"), type_arg, resw, countw, resh, counth, method, params_arg)
+        err = libresdet.resdetect_file(os.fsencode(filename), type_arg, resw, countw, resh, counth, method, params_arg)
     finally:
         libc.free(params_arg)
 
-- 
2.43.0


From 7642e5b6bd005289ed4745da0f9d740941f4ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 28/43] fix: return PIL images with the right width and height

---
 bindings/python/resdet_PIL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/resdet_PIL.py b/bindings/python/resdet_PIL.py
index 889747f..8a35b20 100644
--- a/bindings/python/resdet_PIL.py
+++ b/bindings/python/resdet_PIL.py
@@ -8,7 +8,7 @@ from typing import Optional
 class Image(resdet_numpy.Image):
     def read_image_frame_as_pil_image(self) -> Optional[PIL.Image.Image]:
         if (ndarray := self.read_image_frame_as_ndarray()) is not None:
-            return PIL.Image.fromarray(ndarray, "F")
+            return PIL.Image.fromarray(ndarray.reshape(self.height, self.width), "F")
 
     def __iter__(self):
         return self
-- 
2.43.0


From b4097c282e898d79cfc64a3c16d4210fef2239c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 29/43] fix: convert NumPy arrays to contiguous floats

---
 bindings/python/resdet_numpy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bindings/python/resdet_numpy.py b/bindings/python/resdet_numpy.py
index 6e3d630..81f8f55 100644
--- a/bindings/python/resdet_numpy.py
+++ b/bindings/python/resdet_numpy.py
@@ -23,11 +23,17 @@ class Image(resdet.Image):
             return ret
         raise StopIteration
 
+# the library takes floats without gaps between them
+def _float_array(image: numpy.ndarray) -> numpy.ndarray:
+    return numpy.array(image, dtype = numpy.float32, order = "K")
+
 @Analysis.analyze_image.register
 def _(self, image: numpy.ndarray) -> None:
+    image = _float_array(image)
     self.analyze_image(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)))
 
 @resdetect.register
 def _(image: numpy.ndarray, method: Optional[Method] = None, parameters: dict = {}) -> dict:
+    image = _float_array(image)
     nimages = image.shape[2] if len(image.shape) > 2 else 1
     return resdetect(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)), nimages, image.shape[0], image.shape[1], method, parameters)
-- 
2.43.0


From 08d83cfcdfc5e49717bb9472d7ebe22334e634bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 30/43] fix: accept paths in the Python resdetect function as
 documented

---
 bindings/python/resdet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 6182a24..4324d8a 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -461,3 +461,8 @@ def resdetect_file(filename: str | os.PathLike, type: Optional[str] = None, meth
     libc.free(resh)
 
     return {"widths": widths, "heights": heights}
+
+@resdetect.register(str)
+@resdetect.register(os.PathLike)
+def _(filename: str | os.PathLike, type: Optional[str] = None, method: Optional[Method] = None, parameters: dict = {}) -> dict:
+    return resdetect_file(filename, type, method, parameters)
-- 
2.43.0


From f5f09c0e6a5d15d9fc295ccaa8a7d0cbbdca0705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 31/43] fix: require frames of the same size from PIL images

---
 bindings/python/resdet_PIL.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/python/resdet_PIL.py b/bindings/python/resdet_PIL.py
index 8a35b20..181f06e 100644
--- a/bindings/python/resdet_PIL.py
+++ b/bindings/python/resdet_PIL.py
@@ -1,4 +1,5 @@
 import resdet_numpy
+from resdet import InvalidImageError
 from resdet_numpy import resdetect, Analysis, Method, Image
 
 import PIL.Image
@@ -24,6 +25,7 @@ def _(self, image: PIL.Image.Image) -> None:
 
 @resdetect.register
 def _(image: PIL.Image.Image, method: Optional[Method] = None, parameters: dict = {}) -> dict:
+    size = image.size
     analysis = Analysis(image.width, image.height, method, parameters)
     frameno = prev_frame = image.tell()
     while True:
@@ -32,6 +34,8 @@ def _(image: PIL.Image.Image, method: Optional[Method] = None, parameters: dict
             frameno += 1
         except EOFError:
             break;
+        if image.size != size:
+            raise InvalidImageError("Images in a sequence must have the same size")
         analysis.analyze_image(image)
 
     image.seek(prev_frame)
-- 
2.43.0


From dc4a2b9937ed8f656e11e3cf2ab578ad1c049e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 32/43] fix: report every invalid parameter in the JS bindings

---
 bindings/emscripten/resdet.mts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 7f201a7..96c46aa 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -181,15 +181,17 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 	if(!params)
 		throw new OutOfMemoryError();
 
-	let err;
+	let err = 0;
 	if('range' in parameters)
 		err = resdet_parameters_set_range(params,parameters['range']);
-	if('threshold' in parameters)
+	if(!err && 'threshold' in parameters)
 		err = resdet_parameters_set_threshold(params,parameters['threshold']);
-	if('compression_filter' in parameters)
+	if(!err && 'compression_filter' in parameters)
 		err = resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
-	if(err)
+	if(err) {
+		Module._free(params);
 		throw new RDError(err);
+	}
 
 	return params;
 }
-- 
2.43.0


From f5494ae55131a628ef886fb89cec29e1e786389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 33/43] fix: free everything when the JS bindings run out of
 memory

---
 bindings/emscripten/resdet.mts | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 96c46aa..3a0a540 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -97,8 +97,10 @@ class Analysis {
 	constructor(width: number, height: number, method: Method | null = null, parameters: Partial<Parameters> = {}) {
 		const params = parametersFromObj(parameters)
 		const errp = Module._malloc(4);
-		if(!errp)
+		if(!errp) {
+			Module._free(params);
 			throw new OutOfMemoryError();
+		}
 
 		this.rdanalysis = resdet_create_analysis(method?.rdmethod, width, height, params, errp);
 
@@ -129,8 +131,13 @@ class Analysis {
 		const counthp = Module._malloc(4);
 		const reswp = Module._malloc(4);
 		const reshp = Module._malloc(4);
-		if(!(countwp && counthp && reswp && reshp))
+		if(!(countwp && counthp && reswp && reshp)) {
+			Module._free(reswp);
+			Module._free(reshp);
+			Module._free(countwp);
+			Module._free(counthp);
 			throw new OutOfMemoryError();
+		}
 
 		const err = resdet_analysis_results(this.rdanalysis,reswp,countwp,reshp,counthp);
 
@@ -200,16 +207,25 @@ function resDetect(float32Array: Float32Array, nimages: number, width: number, h
 	const params = parametersFromObj(parameters)
 
 	const buf = Module._malloc(float32Array.length*4);
-	if(!buf)
+	if(!buf) {
+		Module._free(params);
 		throw new OutOfMemoryError();
+	}
 	Module.HEAPF32.set(float32Array,buf/4);
 
 	const countwp = Module._malloc(4);
 	const counthp = Module._malloc(4);
 	const reswp = Module._malloc(4);
 	const reshp = Module._malloc(4);
-	if(!(countwp && counthp && reswp && reshp))
+	if(!(countwp && counthp && reswp && reshp)) {
+		Module._free(reswp);
+		Module._free(reshp);
+		Module._free(countwp);
+		Module._free(counthp);
+		Module._free(params);
+		Module._free(buf);
 		throw new OutOfMemoryError();
+	}
 
 	const err = resdetect(buf, nimages, width, height, reswp, countwp, reshp, counthp, method?.rdmethod, params);
 	Module._free(params);
-- 
2.43.0


From 8bc7c1a71711e6637864943afe914ba8c134d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 34/43] fix: don't truncate numbers in the JS bindings

---
 bindings/emscripten/resdet.mts | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 3a0a540..a889760 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -32,6 +32,15 @@ class RDError extends Error {
 	}
 }
 
+const RDEPARAM = 6;
+
+// WebAssembly converts numbers to integers without regard for what fits
+function checkInteger(value: number, max: number = 2**32-1) {
+	const number = Number(value);
+	if(!Number.isInteger(number) || number < 0 || number > max)
+		throw new RDError(RDEPARAM);
+}
+
 class Method {
 	name: string
 	threshold: number
@@ -95,6 +104,9 @@ class Analysis {
 	rdanalysis: number
 
 	constructor(width: number, height: number, method: Method | null = null, parameters: Partial<Parameters> = {}) {
+		checkInteger(width);
+		checkInteger(height);
+
 		const params = parametersFromObj(parameters)
 		const errp = Module._malloc(4);
 		if(!errp) {
@@ -184,6 +196,11 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 	if(unrecognized.length)
 		throw new Error(`Unrecognized parameters: ${unrecognized}`);
 
+	if('range' in parameters)
+		checkInteger(parameters['range']!);
+	if('compression_filter' in parameters)
+		checkInteger(parameters['compression_filter']!,255);
+
 	const params = resdet_alloc_default_parameters();
 	if(!params)
 		throw new OutOfMemoryError();
@@ -204,6 +221,10 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 }
 
 function resDetect(float32Array: Float32Array, nimages: number, width: number, height: number, method: Method | null = null, parameters: Partial<Parameters> = {}) {
+	checkInteger(nimages);
+	checkInteger(width);
+	checkInteger(height);
+
 	const params = parametersFromObj(parameters)
 
 	const buf = Module._malloc(float32Array.length*4);
-- 
2.43.0


From d1a81beed16ceff0082919eeb0d5fc8d6613897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 35/43] fix: imgread dereferenced a missing output path

---
 src/imgread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imgread.c b/src/imgread.c
index bfdfe63..f5d8cc5 100644
--- a/src/imgread.c
+++ b/src/imgread.c
@@ -8,7 +8,7 @@
 #include "resdet.h"
 
 int main(int argc, char** argv) {
-	if(argc < 2) {
+	if(argc < 3) {
 		fprintf(stderr,"Usage: %s input_image output.pfm\n", argv[0]);
 		return 1;
 	}
-- 
2.43.0


From 09d628100eff0674413f23ea89aaa1ee535b9150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 36/43] fix: imgread exited with 0 on read and write errors

---
 src/imgread.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/imgread.c b/src/imgread.c
index f5d8cc5..838f1db 100644
--- a/src/imgread.c
+++ b/src/imgread.c
@@ -14,6 +14,7 @@ int main(int argc, char** argv) {
 	}
 
 	FILE* out = NULL;
+	int ret = 1;
 
 	float* image;
 	size_t width, height;
@@ -38,12 +39,21 @@ int main(int argc, char** argv) {
 			fwrite(image+(i-1)*width,sizeof(*image),width,out);
 	}
 
+	ret = e != RDEOK;
+
 end:
 	if(e)
 		fprintf(stderr,"%s\n",resdet_error_str(e));
 
 	resdet_close_image(rdimage);
-	if(out)
-		fclose(out);
+	if(out) {
+		bool failed = ferror(out);
+		if(fclose(out) || failed) {
+			fputs("error writing output\n",stderr);
+			ret = 1;
+		}
+	}
 	free(image);
+
+	return ret;
 }
-- 
2.43.0


From a9205a258e30899336d1b264a85e0cc83bfe4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 37/43] fix: profile compared unordered lists of resolutions as
 if they were ordered

---
 src/profile.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/profile.c b/src/profile.c
index 5898e8f..077f454 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -25,7 +25,21 @@ struct timeval diffts(struct timeval start, struct timeval end) {
 }
 
 
+int cmpknown(const void* left, const void* right) {
+	size_t l = *(const size_t*)left, r = *(const size_t*)right;
+	return l < r ? -1 : l > r;
+}
+
+int cmpres(const void* left, const void* right) {
+	size_t l = ((const RDResolution*)left)->index, r = ((const RDResolution*)right)->index;
+	return l < r ? -1 : l > r;
+}
+
 void diffres(size_t* left, size_t leftlen, RDResolution* right, size_t rightlen, size_t* plus, size_t* minus) {
+	// detected resolutions are ordered by confidence
+	qsort(left,leftlen,sizeof(*left),cmpknown);
+	qsort(right,rightlen,sizeof(*right),cmpres);
+
 	size_t l = 0, r = 0;
 	while(l < leftlen && r < rightlen)
 		if(left[l] > right[r].index) {
-- 
2.43.0


From cfbe23e61cb48327f7f6818ff4679cf4f12ecdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 38/43] fix: profile printed microseconds as nanoseconds

---
 src/profile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/profile.c b/src/profile.c
index 077f454..532450f 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -194,7 +194,7 @@ int main(int argc, char* argv[]) {
 			diffplus[m-methods] += plus;
 			diffminus[m-methods] += minus;
 
-			printf("%-*s   %2ld.%.9ld   (+%zu -%zu)\n",padding,m->name,after.tv_sec,(long)after.tv_usec,plus,minus);
+			printf("%-*s   %2ld.%.6ld   (+%zu -%zu)\n",padding,m->name,after.tv_sec,(long)after.tv_usec,plus,minus);
 detect_end:
 			free(rw);
 			free(rh);
@@ -209,6 +209,6 @@ read_end:
 
 	puts("totals");
 	for(RDMethod* m = methods; m->name; m++)
-		printf("%-*s   %2ld.%.9ld   (+%zu -%zu)\n",padding,m->name,tvs[m-methods].tv_sec,(long)tvs[m-methods].tv_usec,diffplus[m-methods],diffminus[m-methods]);
+		printf("%-*s   %2ld.%.6ld   (+%zu -%zu)\n",padding,m->name,tvs[m-methods].tv_sec,(long)tvs[m-methods].tv_usec,diffplus[m-methods],diffminus[m-methods]);
 	return ret;
 }
-- 
2.43.0


From c57016ec9cfb7d963db86ce5be5323ad72ef3df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 39/43] fix: profile lost the last digit of a dictionary that
 does not end with a newline

---
 src/profile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/profile.c b/src/profile.c
index 532450f..f1d7de7 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -128,7 +128,8 @@ int main(int argc, char* argv[]) {
 	while(!ret && (len = getline(&line,&len2,dict)) > 0) {
 		if(*line == '\n')
 			continue;
-		line[len-1] = '\0';
+		if(line[len-1] == '\n')
+			line[len-1] = '\0';
 		puts(line);
 		float* image;
 		size_t w, h, d;
@@ -150,7 +151,8 @@ int main(int argc, char* argv[]) {
 			ret = 1;
 			goto read_end;
 		}
-		line[len-1] = '\0';
+		if(line[len-1] == '\n')
+			line[len-1] = '\0';
 
 		readres(line,&knownw,&knownwct);
 		if(!knownwct) {
@@ -162,7 +164,8 @@ int main(int argc, char* argv[]) {
 			ret = 1;
 			goto read_end;
 		}
-		line[len-1] = '\0';
+		if(line[len-1] == '\n')
+			line[len-1] = '\0';
 
 		readres(line,&knownh,&knownhct);
 		if(!knownhct) {
-- 
2.43.0


From cba071cc32f7f6111d5a3da28a495d1cb2e35927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 40/43] fix: profile took a read error for the end of the
 dictionary

---
 src/profile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/profile.c b/src/profile.c
index f1d7de7..36a0619 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -207,6 +207,10 @@ read_end:
 		free(knownh);
 		free(image);
 	}
+	if(ferror(dict)) {
+		fprintf(stderr,"Error reading dictionary file: %s\n",strerror(errno));
+		ret = 1;
+	}
 	free(line);
 	fclose(dict);
 
-- 
2.43.0


From 0ab4474d5f8fd53c2d9cfc467fb28aa301bed662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:31 +0000
Subject: [PATCH 41/43] fix: y4m: accept header tags without a value

The value of an unrecognized tag was skipped with a scanf conversion that
first skips white space, so a tag with an empty value swallowed the next
tag, or the end of the header and the first frame marker.
---
 lib/image/y4m.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index ed3e792..e43a753 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -64,8 +64,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 			case ' ': break;
 			case EOF: goto invalid;
 			default:
-				if(fscanf(ctx->f,"%*s") < 0)
-					goto invalid;
+				while((c = fgetc(ctx->f)) != ' ' && c != '\n')
+					if(c == EOF)
+						goto invalid;
+				ungetc(c,ctx->f);
 				break;
 		}
 
-- 
2.43.0


From 1cf1ccdc1f4c5a80ac05f3d981fe46560d5bc174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:12 +0000
Subject: [PATCH 42/43] fix: stat took its quantiles and outliers from results
 in the wrong order

Results come in descending order of confidence, so every fence was wrong and every
detection was listed as an extreme outlier; the quantiles also took in the entry after
the last detection, which is the given size with a confidence of -1.
---
 src/stat.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/stat.c b/src/stat.c
index 32bfcf0..1510975 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -7,10 +7,29 @@
 
 #include "resdet.h"
 
+static int cmpres(const void* left, const void* right) {
+	float l = ((const RDResolution*)left)->confidence, r = ((const RDResolution*)right)->confidence;
+	return l < r ? -1 : l > r;
+}
+
+static float quantile(RDResolution* rw, size_t cw, float q) {
+	float pos = (cw-1)*q;
+	size_t i = pos;
+	return i+1 < cw ? rw[i].confidence + (rw[i+1].confidence-rw[i].confidence)*(pos-i) : rw[i].confidence;
+}
+
 void statres(RDResolution* rw, size_t cw) {
-	float median = (rw[cw/2].confidence + rw[(cw+1)/2].confidence) / 2;
-	float lq = rw[cw/4].confidence*(cw/4.0-cw/4) + rw[(cw+1)/4].confidence*(1-(cw/4.0-cw/4));
-	float hq = rw[cw*3/4].confidence*(cw*3/4.0-cw*3/4) + rw[(cw+1)*3/4].confidence*(1-(cw*3/4.0-cw*3/4));
+	if(!cw) {
+		puts("no detections");
+		return;
+	}
+
+	// results come in descending order
+	qsort(rw,cw,sizeof(*rw),cmpres);
+
+	float median = quantile(rw,cw,0.5f);
+	float lq = quantile(rw,cw,0.25f);
+	float hq = quantile(rw,cw,0.75f);
 	float iq = hq-lq;
 	float inner = 3*iq+hq;
 	float outer = 6*iq+hq;
-- 
2.43.0


From 2295c5dd86fc0921d5bdf6260b3b3b026fc7c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:36 +0000
Subject: [PATCH 43/43] fix: profile and stat reported success after losing
 their report

Their output was never checked, so that a full disk left an empty or cut report and an
exit status of 0. (resdet's own results are checked since an earlier fix.)
---
 src/profile.c | 4 ++++
 src/stat.c    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/profile.c b/src/profile.c
index 36a0619..28f6db0 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -217,5 +217,9 @@ read_end:
 	puts("totals");
 	for(RDMethod* m = methods; m->name; m++)
 		printf("%-*s   %2ld.%.6ld   (+%zu -%zu)\n",padding,m->name,tvs[m-methods].tv_sec,(long)tvs[m-methods].tv_usec,diffplus[m-methods],diffminus[m-methods]);
+	if(fflush(stdout) || ferror(stdout)) {
+		fputs("Error writing the results\n",stderr);
+		ret = 1;
+	}
 	return ret;
 }
diff --git a/src/stat.c b/src/stat.c
index 1510975..0cac0d2 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -67,5 +67,9 @@ end:
 	free(rw);
 	free(rh);
 	if(e) fprintf(stderr,"%s\n",resdet_error_str(e));
+	else if(fflush(stdout) || ferror(stdout)) {
+		fputs("Error writing the results\n",stderr);
+		return 1;
+	}
 	return e;
 }
-- 
2.43.0

