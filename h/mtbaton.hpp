// Real threads, one at a time: every decision about which of them runs is the explorer's.
#pragma once
#include <string>
#include <vector>
namespace bt {
struct Dev { int at, choice; };
enum Base { KEEP, ROBIN, LAST, NBASE };
const int MAXDEC = 60000;
struct Shared { int ndec, threads, joined; unsigned char n[MAXDEC]; };
// In a process with one thread: from here on threads are under control. `run` is carried out and the process must then end itself.
void control(int base, const std::vector<Dev> &devs, Shared *sh, void (*run)());
void undisturbed(bool);
int alive();                             // threads that have not ended, besides the caller
extern std::string (*describe)(const std::string &devs);
}
