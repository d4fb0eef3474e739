// Run time of the OpenMP constructs for checked runs: the members of a team are separate stacks of the thread that meets the
// construct, run one after the other up to the next barrier in a chosen order; the race detector treats them as unordered.
#pragma once
namespace ompx {
extern int teamSize;           // members of every team (1: no teams)
extern int order;              // which permutation of the members (lexicographic number)
extern int dealing;            // dynamic schedules: 0 round robin, 1 everything to the first, 2 everything to the last, 3 blocks reversed
long regions(); long members();
}
