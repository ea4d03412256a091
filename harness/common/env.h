// Definitions the repository's headers expect from src/utils (kept out of the harness build so
// that a driver links only the code it exercises).
#pragma once
#include <sstream>
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <string>
#include <random>
#include "utils/Random.h"
#include "utils/System.h"
#ifndef VERIF_NO_ENV
tGenerator startGen(START_SEED);
size_t getPeakRSS() { return 0; }
size_t getCurrentRSS() { return 0; }
std::string print_stacktrace(const std::string &, const int, const uint) { return ""; }
std::string getHostname() { return "host"; }
std::string getDatetime() { return "date"; }
#endif
