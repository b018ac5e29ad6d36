#pragma once
#include <cstddef>
#include <cstdint>
struct OmpStats { unsigned long regions = 0, accesses = 0, switches = 0, races = 0; };
void omp_sim_schedule(int threads, unsigned mode, unsigned quantum, uint64_t seed);
const char *omp_sim_race();
OmpStats omp_sim_stats();
