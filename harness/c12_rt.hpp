// A controlled scheduler: two real threads of which one runs at a time; the running one is switched at chosen steps.
#pragma once
#include <cstddef>
#include <cstdint>
namespace rt {
enum Grain { EVERY = 0, CALLS = 1, SHARED = 2 }; // steps: every basic block, function entry and global access / the last two / the last
struct Seg { // run thread `t` for `n` steps (until its end if n < 0)
   int     t;
   int64_t n;
};
void    begin(const Seg* s, int n, Grain g); // by the controller, before the threads start
void    enter(int t);                        // by the thread: waits for its turn
void    leave();                             // by the thread: done
int64_t steps(int t);                        // taken by the thread in the last run
int64_t switches();                          // preemptions that happened
bool    freed();                             // a thread waited for another that was held back: the schedule was given up
}
