// Simulated threads: real pthreads of which exactly one runs at a time; who
// runs is the simulator's choice.
#pragma once
#include "env.h"
#include <functional>
namespace threads {
  Outcome run(int task,const std::function<void()>&f);   // in the task's own thread if the run uses threads
  std::vector<Outcome> parallel(const std::vector<std::function<void()>>&fs,u64 seed,u64 prob);
  void reset();
  extern bool useThreads; extern int level; extern u64 handoffs;
}
