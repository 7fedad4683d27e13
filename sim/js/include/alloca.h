#pragma once
#define alloca __builtin_alloca
