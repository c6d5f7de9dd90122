// Runs functions of the simulator on states given on stdin and prints the states that result.
// Linked with the sources of /repo; the contracts are evaluated on its output by conc.py.
#include <glog/logging.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include "soil_simulator/soil_dynamics.hpp"
#include "soil_simulator/types.hpp"
#include "soil_simulator/body_pos.hpp"
#include "soil_simulator/body_soil.hpp"
#include "soil_simulator/intersecting_cells.hpp"
#include "soil_simulator/relax.hpp"
#include "soil_simulator/utils.hpp"

std::mt19937 soil_simulator::rng;
using namespace soil_simulator;
typedef std::vector<float> VF;
typedef std::vector<std::vector<int>> VI;

struct Sink : google::LogSink {
    int n = 0;
    void send(google::LogSeverity s, const char*, const char*, int, const struct ::tm*, const char*, size_t) override {
        if (s >= google::GLOG_WARNING) n++;
    }
    void send(google::LogSeverity s, const char*, const char*, int, const google::LogMessageTime&, const char*, size_t) override {
        if (s >= google::GLOG_WARNING) n++;
    }
} sink;

static std::unique_ptr<Grid> grid;
static std::unique_ptr<SimOut> so;
static std::unique_ptr<Bucket> bucket;
static std::unique_ptr<Blade> blade;
static std::unique_ptr<SimParam> param;
static std::vector<body_soil> extra;
static float tol = 1e-5;
static bool isblade = false;
static Body* body() { return isblade ? static_cast<Body*>(blade.get()) : static_cast<Body*>(bucket.get()); }
static std::string out;
static void P(const char* s) { out += s; }
static void P(int v) { out += ' '; out += std::to_string(v); }
static void P(double v) { char b[40]; snprintf(b, sizeof b, " %.9g", v); out += b; }
static void PV(const VF& v) { P(static_cast<int>(v.size())); for (auto x : v) P(static_cast<double>(x)); }
static void PI(const VI& v) {
    P(static_cast<int>(v.size()));
    for (auto& x : v) { P(static_cast<int>(x.size())); for (auto y : x) P(y); }
}
static void plist(const char* nm, const std::vector<body_soil>& l) {
    P(nm);
    P(static_cast<int>(l.size()));
    for (auto& e : l) { P(e.ind); P(e.ii); P(e.jj); P((double)e.x_b); P((double)e.y_b); P((double)e.z_b); P((double)e.h_soil); }
    P("\n");
}
static void pgrid(const char* nm, int l, const std::vector<std::vector<float>>& a) {
    P(nm); P(l); P(static_cast<int>(a.size())); P(a.empty() ? 0 : static_cast<int>(a[0].size()));
    int same = 1;
    for (auto& r : a) if (r.size() != a[0].size()) same = 0;
    P(same);
    // sparse
    for (int i = 0; i < (int)a.size(); i++) for (int j = 0; j < (int)a[i].size(); j++) if (a[i][j] != 0.0) { P(i); P(j); P((double)a[i][j]); }
    P("\n");
}
static void dump() {
    pgrid("terrain", 0, so->terrain_);
    P("nbody"); P((int)so->body_.size()); P((int)so->body_soil_.size()); P("\n");
    for (int l = 0; l < (int)so->body_.size(); l++) pgrid("body", l, so->body_[l]);
    for (int l = 0; l < (int)so->body_soil_.size(); l++) pgrid("bs", l, so->body_soil_[l]);
    plist("list", so->body_soil_pos_);
    plist("extra", extra);
    P("areas");
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) P(so->body_area_[a][b]);
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) P(so->relax_area_[a][b]);
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) P(so->impact_area_[a][b]);
    P("\neq"); P(so->equilibrium_ ? 1 : 0); P("\n");
    if (body()) { P("pose"); PV(body()->pos_); PV(body()->ori_); P("\n"); }
}
static VF rv(std::istream& s, int n) { VF v(n); for (auto& x : v) { double d; s >> d; x = d; } return v; }
static VF rvn(std::istream& s) { int n; s >> n; return rv(s, n); }
static double rd(std::istream& s) { std::string t; s >> t; return strtod(t.c_str(), nullptr); }
static int ri(std::istream& s) { int n; s >> n; return n; }

static void call(std::istream& s) {
    std::string f; s >> f;
    SoilDynamics sim;
    if (f == "CheckUnstableTerrainCell") { int a = ri(s), b = ri(s); float h = rd(s); P("ret"); P(CheckUnstableTerrainCell(so.get(), a, b, h, tol)); }
    else if (f == "CheckUnstableBodyCell") { int a = ri(s), b = ri(s), c = ri(s), d = ri(s), e = ri(s); float h = rd(s); P("ret"); P(CheckUnstableBodyCell(so.get(), a, b, c, d, e, h, tol)); }
    else if (f == "RelaxUnstableTerrainCell") { int st = ri(s); float dh = rd(s); int a = ri(s), b = ri(s), c = ri(s), d = ri(s); RelaxUnstableTerrainCell(so.get(), st, dh, a, b, c, d, *grid, body(), tol); P("ret"); }
    else if (f == "RelaxUnstableBodyCell") { int st = ri(s); float dh = rd(s); int nn = ri(s), a = ri(s), b = ri(s), ind = ri(s), c = ri(s), d = ri(s); RelaxUnstableBodyCell(so.get(), st, &extra, dh, nn, a, b, ind, c, d, *grid, body(), tol); P("ret"); }
    else if (f == "LocateUnstableTerrainCell") { float dh = rd(s); auto r = LocateUnstableTerrainCell(so.get(), dh, tol); P("ret"); PI(r); }
    else if (f == "RelaxTerrain") { RelaxTerrain(so.get(), *grid, body(), *param, tol); P("ret"); }
    else if (f == "RelaxBodySoil") { RelaxBodySoil(so.get(), *grid, body(), *param, tol); P("ret"); }
    else if (f == "MoveIntersectingCells") { MoveIntersectingCells(so.get(), *grid, body(), tol); P("ret"); }
    else if (f == "MoveIntersectingBodySoil") { MoveIntersectingBodySoil(so.get(), *grid, body(), tol); P("ret"); }
    else if (f == "MoveIntersectingBody") { MoveIntersectingBody(so.get(), tol); P("ret"); }
    else if (f == "LocateIntersectingCells") { auto r = LocateIntersectingCells(so.get(), tol); P("ret"); PI(r); }
    else if (f == "MoveBodySoil") {
        int a = ri(s), b = ri(s), c = ri(s); float mh = rd(s); int d = ri(s), e = ri(s); float h = rd(s); bool w = ri(s);
        auto [x, y, z, hh, ww] = MoveBodySoil(so.get(), a, b, c, mh, d, e, h, w, *grid, body(), tol);
        P("ret"); P(x); P(y); P(z); P((double)hh); P(ww ? 1 : 0);
    }
    else if (f == "UpdateBodySoil") { VF p = rv(s, 3), q = rv(s, 4); UpdateBodySoil(so.get(), p, q, *grid, body(), tol); P("ret"); }
    else if (f == "IncludeNewBodyPos") { int a = ri(s), b = ri(s); float lo = rd(s), hi = rd(s); IncludeNewBodyPos(so.get(), a, b, lo, hi, tol); P("ret"); }
    else if (f == "UpdateBody") { int n = ri(s); VI v; for (int k = 0; k < n; k++) { int a = ri(s), b = ri(s), c = ri(s); v.push_back({a, b, c}); } UpdateBody(v, so.get(), *grid, tol); P("ret"); }
    else if (f == "CalcBodyPos") { VF p = rv(s, 3), q = rv(s, 4); if (isblade) CalcBodyPos(so.get(), p, q, *grid, blade.get(), *param, tol); else CalcBodyPos(so.get(), p, q, *grid, bucket.get(), *param, tol); P("ret"); }
    else if (f == "CalcLinePos") { VF a = rv(s, 3), b = rv(s, 3); auto r = CalcLinePos(a, b, *grid); P("ret"); PI(r); }
    else if (f == "CalcRectanglePos") { VF a = rv(s, 3), b = rv(s, 3), c = rv(s, 3), d = rv(s, 3); auto r = CalcRectanglePos(a, b, c, d, *grid, tol); P("ret"); PI(r); }
    else if (f == "CalcTrianglePos") { VF a = rv(s, 3), b = rv(s, 3), c = rv(s, 3); auto r = CalcTrianglePos(a, b, c, *grid, tol); P("ret"); PI(r); }
    else if (f == "DecomposeVectorRectangle" || f == "DecomposeVectorTriangle") {
        VF a = rv(s, 3), b = rv(s, 3), c = rv(s, 3); int x = ri(s), y = ri(s), lx = ri(s), ly = ri(s);
        auto r = f == "DecomposeVectorRectangle" ? DecomposeVectorRectangle(a, b, c, x, y, lx, ly, tol) : DecomposeVectorTriangle(a, b, c, x, y, lx, ly, tol);
        P("ret"); P(lx); P(ly); P(std::get<3>(r));
        P((int)std::get<2>(r).size()); P(std::get<2>(r).empty() ? 0 : (int)std::get<2>(r)[0].size());
        for (int i = 0; i < lx; i++) for (int j = 0; j < ly; j++) { P(std::get<2>(r).at(i).at(j) ? 1 : 0); P((double)std::get<0>(r).at(i).at(j)); P((double)std::get<1>(r).at(i).at(j)); }
    }
    else if (f == "CalcBodyCornerPos") {
        VF p = rv(s, 3), q = rv(s, 4); auto [a, b, c, d, e, g] = CalcBodyCornerPos(p, q, body());
        P("ret"); PV(a); PV(b); PV(c); PV(d); PV(e); PV(g);
    }
    else if (f == "CheckBodyMovement") { VF p = rv(s, 3), q = rv(s, 4); P("ret"); P(CheckBodyMovement(p, q, *grid, body()) ? 1 : 0); }
    else if (f == "CalcNormal") { VF a = rv(s, 3), b = rv(s, 3), c = rv(s, 3); P("ret"); PV(CalcNormal(a, b, c)); }
    else if (f == "CalcBodyFramePos") { int i = ri(s), j = ri(s); float z = rd(s); auto v = CalcBodyFramePos(i, j, z, *grid, body()); P("ret"); PV(v); }
    else if (f == "CalcRotationQuaternion") { VF q = rv(s, 4), p = rv(s, 3); P("ret"); PV(CalcRotationQuaternion(q, p)); }
    else if (f == "AngleToQuat") { VF a = rv(s, 3); P("ret"); PV(AngleToQuat(a)); }
    else if (f == "MultiplyQuaternion") { VF a = rv(s, 4), b = rv(s, 4); P("ret"); PV(MultiplyQuaternion(a, b)); }
    else if (f == "CheckVolume") { int v = ri(s); P("ret"); P(CheckVolume(so.get(), v, *grid, tol) ? 1 : 0); }
    else if (f == "CheckSoil") { P("ret"); P(CheckSoil(so.get(), tol) ? 1 : 0); }
    else if (f == "Check") { int v = ri(s); sim.Check(so.get(), v, *grid, tol); P("ret"); }
    else if (f == "simplex_noise") { float x = rd(s), y = rd(s); std::vector<int> p(256); for (auto& v : p) v = ri(s); P("ret"); P((double)simplex_noise(x, y, p)); }
    else if (f == "Init") { float a = rd(s); sim.Init(so.get(), *grid, a); P("ret"); }
    else if (f == "Step") {
        VF p = rv(s, 3), q = rv(s, 4);
        bool r = isblade ? sim.Step(so.get(), p, q, *grid, blade.get(), *param, tol) : sim.Step(so.get(), p, q, *grid, bucket.get(), *param, tol);
        P("ret"); P(r ? 1 : 0);
    }
    else if (f == "WriteSoil") { WriteSoil(so.get(), *grid); P("ret"); }
    else if (f == "WriteBody") { if (isblade) WriteBody(blade.get()); else WriteBody(bucket.get()); P("ret"); }
    else if (f == "WriteOutputs") { if (isblade) sim.WriteOutputs(so.get(), *grid, blade.get()); else sim.WriteOutputs(so.get(), *grid, bucket.get()); P("ret"); }
    else { P("unknown "); P(f.c_str()); }
    P("\nwarn"); P(sink.n); P("\n");
    sink.n = 0;
}

static void command(std::istream& s, const std::string& c) {
    if (c == "grid") { float a = rd(s), b = rd(s), d = rd(s), e = rd(s), f = rd(s); grid = std::make_unique<Grid>(a, b, d, e, f);
        P("grid"); P(grid->half_length_x_); P(grid->half_length_y_); P(grid->half_length_z_); P((double)grid->cell_size_xy_); P((double)grid->cell_size_z_); P((double)grid->cell_area_); P((double)grid->cell_volume_); P("\n"); }
    else if (c == "vects") { P("vx"); PV(grid->vect_x_); P("\nvy"); PV(grid->vect_y_); P("\nvz"); VF z; for (auto v : grid->vect_z_) z.push_back(v); PV(z); P("\n"); }
    else if (c == "simout") { extra.clear(); so = std::make_unique<SimOut>(*grid); }
    else if (c == "body") {
        std::string k; s >> k; VF o = rvn(s), j = rvn(s), b = rvn(s), t = rvn(s); float w = rd(s);
        isblade = k == "blade";
        if (isblade) blade = std::make_unique<Blade>(o, j, b, t, w); else bucket = std::make_unique<Bucket>(o, j, b, t, w);
        P("body"); PV(body()->j_pos_init_); PV(body()->b_pos_init_); PV(body()->t_pos_init_); P((double)body()->width_); PV(body()->pos_); PV(body()->ori_); P("\n");
    }
    else if (c == "defaults") {
        Grid g; SimParam p; Bucket b; Blade d;
        P("defaults"); P(g.half_length_x_); P(g.half_length_y_); P(g.half_length_z_); P((double)p.repose_angle_); P(p.max_iterations_); P(p.cell_buffer_); P((double)b.width_); P((double)d.width_); P("\n");
    }
    else if (c == "pose") { body()->pos_ = rv(s, 3); body()->ori_ = rv(s, 4); }
    else if (c == "param") { float a = rd(s); int b = ri(s), d = ri(s); param = std::make_unique<SimParam>(a, b, d); P("param"); P((double)param->repose_angle_); P(param->max_iterations_); P(param->cell_buffer_); P("\n"); }
    else if (c == "tol") tol = rd(s);
    else if (c == "seed") rng.seed(ri(s));
    else if (c == "t") { int i = ri(s), j = ri(s); so->terrain_.at(i).at(j) = rd(s); }
    else if (c == "b") { int l = ri(s), i = ri(s), j = ri(s); so->body_.at(l).at(i).at(j) = rd(s); }
    else if (c == "s") { int l = ri(s), i = ri(s), j = ri(s); so->body_soil_.at(l).at(i).at(j) = rd(s); }
    else if (c == "p" || c == "x") { body_soil e; e.ind = ri(s); e.ii = ri(s); e.jj = ri(s); e.x_b = rd(s); e.y_b = rd(s); e.z_b = rd(s); e.h_soil = rd(s); (c == "p" ? so->body_soil_pos_ : extra).push_back(e); }
    else if (c == "area") { std::string k; s >> k; auto a = k == "body" ? so->body_area_ : k == "relax" ? so->relax_area_ : so->impact_area_; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) a[i][j] = ri(s); }
    else if (c == "eq") so->equilibrium_ = ri(s);
    else if (c == "dump") dump();
    else if (c == "call") call(s);
    else { P("bad command "); P(c.c_str()); P("\n"); }
}

int main() {
    google::AddLogSink(&sink);
    std::string line;
    std::ios::sync_with_stdio(false);
    bool dead = false;
    while (std::getline(std::cin, line)) {
        std::istringstream s(line);
        std::string c;
        if (!(s >> c)) continue;
        if (c == "end") { P("end\n"); fwrite(out.data(), 1, out.size(), stdout); fflush(stdout); out.clear(); dead = false; continue; }
        if (dead) continue;
        try { command(s, c); }
        catch (const std::invalid_argument& e) { P("throw invalid_argument\n"); if (c == "call") dead = true; }
        catch (const std::exception& e) { P("throw other\n"); dead = true; }
    }
    return 0;
}
