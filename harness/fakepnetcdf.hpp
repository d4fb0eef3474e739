#pragma once
#include <map>
#include <string>
#include <vector>
// What the code under test wrote through the parallel-netCDF interface.
namespace fpn {
struct Var { std::string name; int type; std::vector<int> dims; std::vector<double> data; std::vector<int> written; std::map<std::string, std::string> atts; };
struct File { std::vector<std::pair<std::string, long long>> dims; std::vector<Var> vars; std::map<std::string, std::string> atts; bool open = false, define = false; int closes = 0;
    const Var* var(const std::string& n) const { for (auto& v : vars) if (v.name == n) return &v; return nullptr; } };
std::map<std::string, File>& files();
void reset();
void failCall(long n);      // the n-th call (1-based) fails; 0: none
void failRank(int rank, long n);   // the n-th call of this rank (of each rank: -1) fails; n = 0: none
long calls();
std::vector<std::string>& callNames();
extern bool shapesOnly;     // do not complain about collectives
}
