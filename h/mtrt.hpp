// Workers and tasks of the multi-threaded engine under the explorer's control (one OS thread), with a happens-before race detector.
#pragma once
#include <string>
#include <vector>
namespace mt {
const int MAXW = 4;
struct Dev { int at, choice; };
enum Base { KEEP, ROBIN, STEAL, LAST, NBASE };
// Carries out f in task 0 of worker 0, with `workers` workers: every execution that differs from the base schedule in at most
// `budget` decisions. `atend` is called at the end of each (in a process of its own). Returns in the caller with the totals.
struct Totals { long executions, decisions, longest, switches, cut; };
void explore(int workers, int base, int budget, long limit, void (*f)(), void (*atend)(), Totals &t);
// Same, for one given list of deviations.
void replay(int workers, int base, const std::vector<Dev> &d, void (*f)(), void (*atend)());
void undisturbed(bool on);               // no decisions are taken while on
void prewarm(int workers, void (*f)());  // f once as each worker
extern std::string (*describe)(const std::string &devs);
extern std::vector<Dev> devs;
extern int base_, W;
extern int reuse;                        // freed memory is used again: last freed first, first freed first, lowest address first
}
