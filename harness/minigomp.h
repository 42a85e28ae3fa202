#pragma once
#include <cstdint>
void minigomp_set_team(int n);              // default team size
void minigomp_one_by_one(bool on);          // guided loops hand out single iterations
void minigomp_perturb(bool on, uint64_t seed);
// In a region: what identifies the current iteration independently of the schedule.
bool minigomp_key(uint64_t *key, uint64_t *iteration, uint64_t *call) __attribute__((weak));
extern "C" void minigomp_counts(uint64_t *v) __attribute__((weak));  // regions, teams, chunks, distinct schedules, largest team
