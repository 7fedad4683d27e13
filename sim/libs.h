// what the harness itself needs of the decoder libraries (never redirected)
#pragma once
#include "core.h"
extern "C" {
#include <jpeglib.h>
}
#include <png.h>
extern "C" {
#include <libavformat/avformat.h>
#include <libavcodec/avcodec.h>
#include <libavutil/opt.h>
#include <libavutil/imgutils.h>
#include <libswscale/swscale.h>
}
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wunknown-pragmas"
#include <wand/MagickWand.h>
#pragma clang diagnostic pop
struct AvioBox { AVIOContext* pb; SimStream* s; bool own; };
AvioBox avio_for(SimFile* f, SimStream* s);
void avio_drop(AvioBox& b);
