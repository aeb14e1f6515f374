#pragma once
// Controls of the simulated environment (randomness, partitioning, links).
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <utility>
namespace sim {
// Deterministic per-thread randomness: every "secure random" call of the code
// under test draws from here, so that a run is a function of the seeds only.
void SeedThread(uint64_t hi, uint64_t lo);
uint64_t NextU64();
void FillBytes(void* p, size_t n);
// Counter-mode PRG used by the FillPRand stand-in: 16-byte block `ctr` of the
// stream (seed, iv).
void PrgBlocks(unsigned __int128 seed, uint64_t iv, uint64_t ctr, void* out, size_t nbytes);
extern thread_local uint64_t parallel_chaos;
// Marks the part of a run that a party is in, kept with its messages.
extern thread_local int64_t epoch;
// If set, receives the output of every PRG expansion of this thread.
extern thread_local std::vector<std::pair<int64_t, std::string>>* prg_log;
void SetMaxThreadsDefault(int n);
// Non-zero: threads pause for random times before they send or receive.
extern uint64_t jitter;
void Pause();
}  // namespace sim
