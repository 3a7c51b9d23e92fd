#ifndef VERIF_COSTS_H
#define VERIF_COSTS_H

#include <cstddef>
#include <cstdint>

namespace costs {

struct Counts
{
	uint64_t blocks = 0;      // blocks of code executed
	uint64_t bytes = 0;       // bytes moved, set, compared or searched
	uint64_t allocated = 0;   // bytes ever asked for
	uint64_t live = 0;
	uint64_t peak = 0;
};

extern Counts now;
// called once when more than this many blocks of code have been executed in all
extern uint64_t limit;
extern void (*over)();

}

#endif
