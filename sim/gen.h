// Profile-driven generation of runs: one (property, seed) pair = one run.
#pragma once
#include "sim.h"
struct Profile;
Trace generate(const std::string& prop,u64 seed,int deep);
