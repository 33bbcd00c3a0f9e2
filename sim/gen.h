#pragma once
#include "sim.h"
struct RunCfg { int prop = 0; uint64_t seed = 1, startUs = 0; bool ssl = true; int logLevel = 0, opt = 0; std::string boot; std::map<std::string, std::string> files; };
RunCfg makeCfg(int prop, uint64_t seed);
StepSource *makeGen(const RunCfg &c);
