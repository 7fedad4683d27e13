#pragma once
#include "core.h"
extern size_t g_heap_max;                        // largest request to the real allocator, decoder libraries included
extern bool g_heap_watch;
struct HeapMine { HeapMine(); ~HeapMine(); };
void heap_track(bool on);                        // starts an empty account, or stops it
void heap_mark();                                // sizes are listed for blocks since the last mark
size_t heap_left(std::string* sizes = nullptr);  // blocks allocated since the start and still live
// false when libav or MagickWand was fed damaged or failing data: what they lose then is theirs
extern bool g_heap_judge;
void heap_settle();                              // drops caches that are meant to grow (FFTW's wisdom)
