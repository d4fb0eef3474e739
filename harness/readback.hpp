// Output files read back with the formats' own libraries (or from the stand-in of the parallel one).
#pragma once
#include "sim.hpp"
#include "fakepnetcdf.hpp"
#include <netcdf.h>
#include <hdf5.h>
#include <cstring>
#include <map>
#include <dirent.h>
#include <unistd.h>
namespace rb {
typedef std::vector<double> Vec;
typedef std::array<int, 3> I3;
struct Img { std::string err; I3 n{{0, 0, 0}}; std::map<std::string, Vec> v; bool hasTime = false; double time = 0; std::map<std::string, std::string> atts; };
// data with dimension lengths len (last fastest) whose d-th axis is axis[d] (0 x, 1 y, 2 z), put into x-fastest order
inline Vec reorder(const Vec& d, const std::vector<size_t>& len, const std::vector<int>& axis, const I3& n) {
    Vec r(d.size(), std::nan("")); size_t i[3] = {0, 0, 0};
    for (size_t k = 0; k < d.size(); ++k) { size_t q = k; for (int a = int(len.size()) - 1; a >= 0; --a) { i[axis[a]] = q % len[a]; q /= len[a]; } r[i[0] + n[0] * (i[1] + size_t(n[1]) * i[2])] = d[k]; }
    return r;
}
inline Img readNc(const std::string& path) {
    Img m; int f; if (int e = nc_open(path.c_str(), NC_NOWRITE, &f)) { m.err = path + ": " + nc_strerror(e); return m; }
    auto fail = [&](const std::string& e) { m.err = e; nc_close(f); return m; };
    int nv, na; nc_inq_nvars(f, &nv); nc_inq_natts(f, &na);
    for (int d = 0; d < 3; ++d) { int id; size_t len; if (nc_inq_dimid(f, d == 0 ? "x" : d == 1 ? "y" : "z", &id) || nc_inq_dimlen(f, id, &len)) return fail("a dimension is missing"); m.n[d] = int(len); }
    for (int i = 0; i < na; ++i) { char name[NC_MAX_NAME + 1]; nc_inq_attname(f, NC_GLOBAL, i, name); size_t len; nc_type t; nc_inq_att(f, NC_GLOBAL, name, &t, &len); std::string s(len, ' '); if (t == NC_CHAR && !nc_get_att_text(f, NC_GLOBAL, name, &s[0])) m.atts[name] = s; }
    for (int v = 0; v < nv; ++v) { char name[NC_MAX_NAME + 1]; int nd, dims[NC_MAX_VAR_DIMS]; nc_inq_var(f, v, name, nullptr, &nd, dims, nullptr);
        std::vector<size_t> len; std::vector<int> axis; size_t tot = 1; std::string dn; for (int d = 0; d < nd; ++d) { char q[NC_MAX_NAME + 1]; size_t l; nc_inq_dim(f, dims[d], q, &l); len.push_back(l); tot *= l; dn += q; dn += ' '; axis.push_back(!strcmp(q, "x") ? 0 : !strcmp(q, "y") ? 1 : !strcmp(q, "z") ? 2 : -1); }
        Vec d(tot); if (nc_get_var_double(f, v, d.data())) return fail(std::string("cannot read ") + name);
        if (!strcmp(name, "time")) { if (tot != 1) return fail("more than one time"); m.hasTime = true; m.time = d[0]; continue; }
        auto s = axis; std::sort(s.begin(), s.end()); if (s != std::vector<int>{0, 1, 2}) return fail(std::string(name) + " has dimensions " + dn);
        m.v[name] = reorder(d, len, axis, m.n); }
    nc_close(f); return m;
}
inline Img readFpn(const std::string& path) {
    Img m; if (!fpn::files().count(path)) { m.err = path + " was not written"; return m; } auto& F = fpn::files()[path]; std::map<std::string, int> id; for (size_t i = 0; i < F.dims.size(); ++i) id[F.dims[i].first] = int(i);
    if (F.open) { m.err = path + " was not closed"; return m; }
    for (int d = 0; d < 3; ++d) { std::string q(1, char('x' + d)); if (!id.count(q)) { m.err = "a dimension is missing"; return m; } m.n[d] = int(F.dims[id[q]].second); }
    m.atts = F.atts;
    for (auto& v : F.vars) { if (v.name == "time") { m.hasTime = true; m.time = v.data.at(0); continue; }
        for (int w : v.written) if (!w) { m.err = "a cell of " + v.name + " was not written"; return m; } else if (w > 1) { m.err = "a cell of " + v.name + " was written more than once"; return m; }
        std::vector<size_t> len; std::vector<int> axis; std::string dn; for (int d : v.dims) { len.push_back(F.dims[d].second); auto& q = F.dims[d].first; dn += q + " "; axis.push_back(q == "x" ? 0 : q == "y" ? 1 : q == "z" ? 2 : -1); }
        auto s = axis; std::sort(s.begin(), s.end()); if (s != std::vector<int>{0, 1, 2}) { m.err = v.name + " has dimensions " + dn; return m; }
        m.v[v.name] = reorder(v.data, len, axis, m.n); }
    return m;
}
// The grid's description goes into the attributes vsNumCells, vsLowerBounds, vsUpperBounds (as text)
inline Img readH5(const std::string& path) {
    Img m; H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) { m.err = path + " cannot be opened"; return m; }
    hid_t g = H5Gopen2(f, "grid", H5P_DEFAULT); if (g < 0) { m.err = "no grid"; H5Fclose(f); return m; }
    int n[3] = {-1, -1, -1}; float lo[3] = {9, 9, 9}, hi[3] = {9, 9, 9}; auto att = [&](const char* q, hid_t t, void* b) { hid_t a = H5Aopen(g, q, H5P_DEFAULT); if (a < 0 || H5Aread(a, t, b) < 0) m.err = std::string("no ") + q; if (a >= 0) H5Aclose(a); };
    att("vsNumCells", H5T_NATIVE_INT, n); att("vsLowerBounds", H5T_NATIVE_FLOAT, lo); att("vsUpperBounds", H5T_NATIVE_FLOAT, hi); m.n = {{n[0], n[1], n[2]}};
    auto str = [&](hid_t o, const char* q) { std::string s = "?"; hid_t a = H5Aopen(o, q, H5P_DEFAULT); if (a >= 0) { hid_t t = H5Aget_type(a); s.assign(H5Tget_size(t), ' '); H5Aread(a, t, &s[0]); H5Tclose(t); H5Aclose(a); } return s; };
    m.atts["vsIndexOrder"] = str(g, "vsIndexOrder"); m.atts["vsType"] = str(g, "vsType"); m.atts["vsKind"] = str(g, "vsKind"); for (int d = 0; d < 3; ++d) { m.atts[hx::cat("lower", d)] = hx::cat(lo[d]); m.atts[hx::cat("upper", d)] = hx::cat(hi[d]); } H5Gclose(g);
    H5G_info_t gi; H5Gget_info(f, &gi); for (hsize_t i = 0; m.err.empty() && i < gi.nlinks; ++i) { char name[256]; H5Lget_name_by_idx(f, ".", H5_INDEX_NAME, H5_ITER_INC, i, name, 256, H5P_DEFAULT); if (!strcmp(name, "grid")) continue;
        hid_t d = H5Dopen2(f, name, H5P_DEFAULT); if (d < 0) { m.err = std::string(name) + " is no dataset"; break; } hid_t s = H5Dget_space(d); hsize_t dims[8]; int nd = H5Sget_simple_extent_dims(s, dims, nullptr); size_t tot = 1; for (int k = 0; k < nd; ++k) tot *= dims[k]; bool fwd = nd == 3, rev = nd == 3; for (int k = 0; k < 3 && nd == 3; ++k) { fwd = fwd && int(dims[k]) == n[k]; rev = rev && int(dims[k]) == n[2 - k]; }
        if (nd != 3) m.err = std::string(name) + " does not have three dimensions"; else if (!fwd && !rev) m.err = std::string(name) + ": the dimensions of the dataset are not those of the grid";    // either way x runs fastest (vsIndexOrder = compMinorF)
        else { Vec b(tot); if (H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()) < 0) m.err = std::string("cannot read ") + name; m.v[name] = b; if (str(d, "vsType") != "variable" || str(d, "vsMesh") != "grid" || str(d, "vsCentering") != "zonal") m.err = std::string(name) + " is not described as a variable on the grid's cells"; } H5Sclose(s); H5Dclose(d); }
    H5Fclose(f); return m;
}
inline std::string differs(const Img& m, const simx::Snapshot& s, bool time) {
    if (!m.err.empty()) return m.err;
    for (int d = 0; d < 3; ++d) if (m.n[d] != s.global[d]) return hx::cat("grid of ", m.n[0], "x", m.n[1], "x", m.n[2], " cells instead of ", s.global[0], "x", s.global[1], "x", s.global[2]);
    if (m.v.size() != s.names.size()) return hx::cat(m.v.size(), " variables instead of ", s.names.size());
    for (size_t k = 0; k < s.names.size(); ++k) { auto i = m.v.find(s.names[k]); if (i == m.v.end()) return "variable " + s.names[k] + " is missing"; if (i->second.size() != s.v[k].size()) return s.names[k] + " has another number of cells";
        for (size_t c = 0; c < s.v[k].size(); ++c) if (memcmp(&i->second[c], &s.v[k][c], 8)) return hx::cat(s.names[k], " in cell ", c % s.n[0], ",", c / s.n[0] % s.n[1], ",", c / s.n[0] / s.n[1], " is ", i->second[c], " in the file instead of ", s.v[k][c]); }
    if (time && (!m.hasTime || memcmp(&m.time, &s.time, 8))) return m.hasTime ? hx::cat("time ", m.time, " instead of ", s.time) : std::string("no time");
    return "";
}
inline std::vector<std::string> list(const std::string& dir) { std::vector<std::string> r; if (DIR* d = opendir(dir.c_str())) { while (auto* e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(d); } std::sort(r.begin(), r.end()); return r; }
}
