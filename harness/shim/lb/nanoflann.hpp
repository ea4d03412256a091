// The installed nanoflann calls this type SearchParameters.
#pragma once
#include_next <nanoflann.hpp>
namespace nanoflann { using SearchParams = SearchParameters; }
