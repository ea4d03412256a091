#pragma once
#include <tbb/version.h>
#include <tbb/tbb_allocator.h>
#include <oneapi/tbb/detail/_config.h>
