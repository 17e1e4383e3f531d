#pragma once
#include <cstddef>
#include <cstdint>
struct RedirStats
{
    uint64_t created = 0, renamed = 0, removed = 0, mapped = 0, unmapped = 0, bytes = 0, largest = 0, overLimit = 0;
    uint64_t (*limit)(void *) = nullptr; void *limitArg = nullptr;
    bool strict = false;         // any munmap of something else is an error
    bool guard = false;          // inaccessible surroundings, no address reuse within a case
    bool keepAddresses = false;  // addresses are never reused
    const char *error = nullptr; uint64_t errA = 0, errB = 0;
};
extern RedirStats redirStats;
void redirStart(const char *root);   // creates and empties root/tables
void redirEnd();                     // unmaps and empties
void redirForgetMaps();              // a process exit: the mappings go, the files stay
size_t redirLive();
