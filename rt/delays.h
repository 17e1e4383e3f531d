// Random delays and stalls at the basic blocks of the code under test.
#pragma once
#include <atomic>
#include <cstdint>
struct Sites { std::atomic<uint32_t> n; uint64_t pc[8192]; std::atomic<uint64_t> seen[2048]; };   // the basic blocks met so far
extern thread_local uint64_t delayState, delayCount, stallCount;
extern thread_local uint32_t delayMask;            // a delay at one of mask+1 blocks
extern thread_local uint64_t stallAt;              // blocks until the next stall; 0: none
extern thread_local uint64_t stallPc, stallVisits; // or: stall at a certain visit of a certain block
extern std::atomic<uint64_t> *delayProgress;       // grows with every operation: stalls last until the others got further
extern Sites *delaySites;
extern unsigned stallScale;                        // log2 of the least typical distance of stalls
void delayPickSite();                              // picks stallPc among the blocks met so far
