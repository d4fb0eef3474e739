#include "fakepnetcdf.hpp"
#include "mcrt.hpp"
#include <pnetcdf.h>
#include <limits>
#include <cstring>
#include <memory>
#include <sstream>
namespace fpn {
static std::map<std::string, File> F;
static std::map<int, std::string> open_;   // ncid -> path
static std::map<int, MPI_Comm> comm_;
static int next_ = 100;
static std::map<std::string, std::pair<int, int>> pending;
static long fail_ = 0, calls_ = 0;
static std::vector<std::string> names_;
static int rank_ = -1; static long rfail_ = 0; static std::map<int, long> rcalls_;
std::map<std::string, File>& files() { return F; }
void reset() { F.clear(); pending.clear(); open_.clear(); comm_.clear(); next_ = 100; fail_ = 0; calls_ = 0; names_.clear(); rfail_ = 0; rcalls_.clear(); }
void failRank(int r, long n) { rank_ = r; rfail_ = n; rcalls_.clear(); calls_ = 0; names_.clear(); }
void failCall(long n) { fail_ = n; calls_ = 0; names_.clear(); }
long calls() { return calls_; }
std::vector<std::string>& callNames() { return names_; }
static bool enter(const char* n) { ++calls_; names_.push_back(n); int r = 0; MPI_Comm_rank(MPI_COMM_WORLD, &r); const long k = ++rcalls_[r]; return (fail_ && calls_ == fail_) || (rfail_ && k == rfail_ && (rank_ < 0 || r == rank_)); }
static File* get(int id) { auto i = open_.find(id); return i == open_.end() ? nullptr : &F[i->second]; }
// every rank must make the same collective call
static void agree(int id, const char* what) { auto c = comm_.find(id); if (c == comm_.end() || !c->second) return; int n; MPI_Comm_size(c->second, &n); if (n > 1) {
    static std::map<std::string, int> ids; int& k = ids[what]; if (!k) k = int(ids.size());
    int mx = 0, me = k; MPI_Allreduce(&me, &mx, 1, MPI_INT, MPI_MAX, c->second); if (mx != me) mc::error(std::string("collective file call mismatch at ") + what); } }
}
using namespace fpn;
#define BADID (-33)
#define E_FAULT (-31)
extern "C" {
const char* ncmpi_strerror(int e) { return nc_strerror(e); }
const char* ncmpi_strerrno(int) { return "error"; }
const char* ncmpi_inq_libvers(void) { return "explored"; }
int ncmpi_create(MPI_Comm c, const char* p, int mode, MPI_Info, int* id) {
    if (enter("create")) return E_FAULT;
    int n = 1, r = 0; MPI_Comm_size(c, &n); MPI_Comm_rank(c, &r);
    int mine = next_ + 0, all = 0;
    if (n > 1) MPI_Barrier(c);
    // a single logical file, one descriptor shared by all members
    auto& pd = pending[p];
    if (pd.second == 0) { pd.first = next_++; F[p] = File(); F[p].open = F[p].define = true; open_[pd.first] = p; comm_[pd.first] = c; }
    pd.second = (pd.second + 1) % n; *id = pd.first; (void)mine; (void)all; (void)mode;
    if (n > 1) MPI_Barrier(c);
    return 0;
}
int ncmpi_open(MPI_Comm c, const char* p, int, MPI_Info, int* id) {
    if (enter("open")) return E_FAULT;
    int n = 1; MPI_Comm_size(c, &n);
    if (n > 1) MPI_Barrier(c);
    if (!F.count(p)) return 2;
    auto& pd = pending[p];
    if (pd.second == 0) { pd.first = next_++; F[p].open = true; F[p].define = false; open_[pd.first] = p; comm_[pd.first] = c; }
    pd.second = (pd.second + 1) % n; *id = pd.first;
    if (n > 1) MPI_Barrier(c);
    return 0;
}
int ncmpi_redef(int id) { if (enter("redef")) return E_FAULT; auto* f = get(id); if (!f) return BADID; agree(id, "redef"); f->define = true; return 0; }
int ncmpi_enddef(int id) { if (enter("enddef")) return E_FAULT; auto* f = get(id); if (!f) return BADID; agree(id, "enddef"); f->define = false; return 0; }
int ncmpi_sync(int id) { if (enter("sync")) return E_FAULT; return get(id) ? 0 : BADID; }
int ncmpi_close(int id) { if (enter("close")) return E_FAULT; auto* f = get(id); if (!f) return BADID; agree(id, "close"); f->open = false; f->closes++; return 0; }
int ncmpi_abort(int id) { return ncmpi_close(id); }
int ncmpi_begin_indep_data(int) { return 0; }
int ncmpi_end_indep_data(int) { return 0; }
int ncmpi_def_dim(int id, const char* n, MPI_Offset len, int* d) {
    if (enter("def_dim")) return E_FAULT; auto* f = get(id); if (!f) return BADID; if (!f->define) return -38;
    agree(id, (std::string("def_dim ") + n + " " + std::to_string(len)).c_str());
    for (size_t i = 0; i < f->dims.size(); ++i) if (f->dims[i].first == n) { *d = int(i); int sz; MPI_Comm_size(comm_[id], &sz); return sz > 1 ? 0 : -42; }
    f->dims.push_back({n, len}); *d = int(f->dims.size()) - 1; return 0;
}
int ncmpi_inq_dimid(int id, const char* n, int* d) { if (enter("inq_dimid")) return E_FAULT; auto* f = get(id); if (!f) return BADID; for (size_t i = 0; i < f->dims.size(); ++i) if (f->dims[i].first == n) { *d = int(i); return 0; } return -46; }
int ncmpi_inq_dimlen(int id, int d, MPI_Offset* n) { auto* f = get(id); if (!f || d < 0 || d >= int(f->dims.size())) return BADID; *n = f->dims[d].second; return 0; }
int ncmpi_inq_varid(int id, const char* n, int* v) { auto* f = get(id); if (!f) return BADID; for (size_t i = 0; i < f->vars.size(); ++i) if (f->vars[i].name == n) { *v = int(i); return 0; } return -49; }
int ncmpi_def_var(int id, const char* n, nc_type t, int nd, const int* dims, int* v) {
    if (enter("def_var")) return E_FAULT; auto* f = get(id); if (!f) return BADID; if (!f->define) return -38;
    agree(id, (std::string("def_var ") + n).c_str());
    for (size_t i = 0; i < f->vars.size(); ++i) if (f->vars[i].name == n) { *v = int(i); int sz; MPI_Comm_size(comm_[id], &sz); return sz > 1 && f->define ? 0 : -42; }
    Var x; x.name = n; x.type = t; x.dims.assign(dims, dims + nd); long long tot = 1; for (int d : x.dims) { if (d < 0 || d >= int(f->dims.size())) return -46; tot *= f->dims[d].second; }
    x.data.assign(tot, std::numeric_limits<double>::quiet_NaN()); x.written.assign(tot, 0);
    f->vars.push_back(x); *v = int(f->vars.size()) - 1; return 0;
}
int ncmpi_put_att_text(int id, int v, const char* n, MPI_Offset len, const char* s) {
    if (enter("put_att_text")) return E_FAULT; auto* f = get(id); if (!f) return BADID;
    if (v == NC_GLOBAL) f->atts[n] = std::string(s, s + len); else if (v >= 0 && v < int(f->vars.size())) f->vars[v].atts[n] = std::string(s, s + len); else return -49; return 0; }
int ncmpi_put_att_double(int id, int, const char* n, nc_type, MPI_Offset, const double*) { if (enter("put_att")) return E_FAULT; auto* f = get(id); if (!f) return BADID; f->atts[n] = "d"; return 0; }
int ncmpi_put_att_int(int id, int, const char* n, nc_type, MPI_Offset, const int*) { if (enter("put_att")) return E_FAULT; auto* f = get(id); if (!f) return BADID; f->atts[n] = "i"; return 0; }
}
template<class T> static int putva(int id, int v, const MPI_Offset* st, const MPI_Offset* ct, const T* b, bool coll, const char* nm) {
    if (enter(nm)) return E_FAULT;
    auto* f = get(id); if (!f) return BADID; if (f->define) return -39;
    if (v < 0 || v >= int(f->vars.size())) return -49;
    if (coll) agree(id, nm);   // members may write to different variables in one collective call
    auto& x = f->vars[v]; const int nd = int(x.dims.size());
    std::vector<long long> len(nd); for (int i = 0; i < nd; ++i) len[i] = f->dims[x.dims[i]].second;
    for (int i = 0; i < nd; ++i) { if (st[i] < 0 || st[i] > len[i] || (st[i] == len[i] && ct[i] > 0)) return -40; if (ct[i] < 0 || st[i] + ct[i] > len[i]) return -57; }
    long long tot = 1; for (int i = 0; i < nd; ++i) tot *= ct[i];
    for (long long k = 0; k < tot; ++k) { long long q = k, at = 0, mul = 1; for (int i = nd - 1; i >= 0; --i) { at += (st[i] + q % ct[i]) * mul; q /= ct[i]; mul *= len[i]; } x.data[at] = double(b[k]); x.written[at]++; }
    return 0;
}
template<class T> static int putvar(int id, int v, const T* b, const char* nm) {
    auto* f = get(id); if (!f) return BADID; if (v < 0 || v >= int(f->vars.size())) return -49;
    std::vector<MPI_Offset> st, ct; for (int d : f->vars[v].dims) { st.push_back(0); ct.push_back(f->dims[d].second); }
    return putva(id, v, st.data(), ct.data(), b, true, nm);
}
extern "C" {
int ncmpi_put_vara_double_all(int id, int v, const MPI_Offset* s, const MPI_Offset* c, const double* b) { return putva(id, v, s, c, b, true, "put_vara"); }
int ncmpi_put_vara_float_all(int id, int v, const MPI_Offset* s, const MPI_Offset* c, const float* b) { return putva(id, v, s, c, b, true, "put_vara"); }
int ncmpi_put_vara_double(int id, int v, const MPI_Offset* s, const MPI_Offset* c, const double* b) { return putva(id, v, s, c, b, false, "put_vara"); }
int ncmpi_put_vara_float(int id, int v, const MPI_Offset* s, const MPI_Offset* c, const float* b) { return putva(id, v, s, c, b, false, "put_vara"); }
int ncmpi_put_var_double_all(int id, int v, const double* b) { return putvar(id, v, b, "put_var"); }
int ncmpi_put_var_float_all(int id, int v, const float* b) { return putvar(id, v, b, "put_var"); }
int ncmpi_put_var_double(int id, int v, const double* b) { return putvar(id, v, b, "put_var"); }
int ncmpi_put_var1_double_all(int id, int v, const MPI_Offset* s, const double* b) { std::vector<MPI_Offset> one(8, 1); return putva(id, v, s, one.data(), b, true, "put_var1"); }
}
