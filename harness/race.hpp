// Access-level happens-before race detection for the tsi variant: the library is
// compiled with -fsanitize=thread code generation and linked against racert.cpp
// instead of the compiler's run time.
#pragma once
#include <string>
#include <vector>
#include <cstddef>

namespace race {
struct Report { std::string where, key; };      // first reports of the execution since mc::run started
std::vector<Report> reports();
long total();                  // races seen in the execution, before removing duplicates
long accesses();               // accesses of managed threads checked so far (all executions)
long sharedPairs();            // pairs of accesses of different threads to the same bytes found ordered (all executions)
// While one lives, accesses of the calling thread are not recorded (observation code).
struct Off { Off(); ~Off(); };
}
extern "C" void mc_acc(const void* p, size_t n, int write) __attribute__((weak));
