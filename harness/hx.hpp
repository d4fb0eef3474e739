// Common parts of every harness program: case enumeration, sharding, replay of a
// single case, crash reporting, counters.
#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <map>
#include <set>
namespace hx {
extern bool thorough;
extern int shard, nshards;
extern std::string only;            // replay this case only
extern double budget;               // seconds; 0: none
void init(int argc, char** argv);
// Announces a case.  False if another shard or the replay filter excludes it.
bool begin(const std::string& name);
bool beginHere(const std::string& name);   // as begin, without sharding
const std::string& current();
bool timeUp();                      // the stated budget is used up (reported as a cap)
double seconds();
// key identifies what failed (for known findings); details say how
void viol(const std::string& key, const std::string& details);
void count(const std::string& name, long n = 1);
void sample(const std::string& text, int max = 3);
void distinct(const std::string& name, size_t hash);   // counts distinct values over all shards
int finish();                       // prints the counters
std::string scratch();              // private scratch directory, removed at exit
void quietLog();
template<class... A> std::string cat(const A&... a) { std::ostringstream s; s.precision(17); using x = int[]; (void)x{0, ((void)(s << a), 0)...}; return s.str(); }
inline size_t hash(const void* p, size_t n, size_t h = 1469598103934665603ull) { auto* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }
inline size_t hash(const std::string& s) { return hash(s.data(), s.size()); }
inline size_t hash(const std::vector<double>& v) { return hash(v.data(), v.size() * sizeof(double)); }
}
