// C24: Green's functions from the field simulation, with any number of jobs.
#include "mp.hh"

int main(int argc, char** argv) {
  mc::Harness h; h.property = "C24"; h.level = "model_checking";
  h.assumptions = {"MEEP is replaced by a stand-in with the same interface whose field is a known function; jobs are threads that run one at a time under the scheduler of the exploration", "time steps are dyadic; voxel sizes are so except where storage regions are requested"};
  h.space("layouts", "divisions of the domain among 1 to 3 jobs", 3, [](Ctx& c) {
    Setup s; s.jobs = c.range(1, c.thorough ? 3 : 2); s.nz = 4; s.nr = 3; s.parts = parts(c, s, c.thorough ? 3 : c.lite ? 2 : 3);
    int reg = c.choose(c.lite ? 2 : 4); if(reg == 0) { s.zs0 = 0; s.zs1 = 4; s.rs0 = 0; s.rs1 = 3; } else if(reg == 1) { s.zs0 = 1; s.zs1 = 3; s.rs0 = 0; s.rs1 = 2; } else if(reg == 2) { s.zs0 = 0; s.zs1 = 2; s.rs0 = 1; s.rs1 = 3; } else { s.zs0 = 2; s.zs1 = 4; s.rs0 = 0; s.rs1 = 3; }
    s.ds = c.range(1, 2); int order = s.jobs > 1 ? c.choose(s.jobs == 2 ? 2 : 3) : 0;
    whole_run(c, s, full_field, order, 0, false);
  });
  h.space("three jobs", "divisions of the domain among three jobs and the order in which they get on", 3, [](Ctx& c) {
    Setup s; s.jobs = 3; s.nz = 3; s.nr = 2; s.parts = parts(c, s, c.thorough ? 5 : c.lite ? 2 : 4); s.zs0 = 0; s.zs1 = 3; s.rs0 = 0; s.rs1 = 2; s.overlap = c.thorough ? c.range(0, 1) : 1; s.ds = 1;
    whole_run(c, s, full_field, c.choose(c.lite ? 1 : c.thorough ? 6 : 3), 0, false);
  });
  h.space("many jobs", "up to 12 jobs with strips of their own, more or fewer than there are jobs", 2, [](Ctx& c) {
    Setup s; s.jobs = c.pick({4, 7, 11}); s.nz = s.jobs + (c.flag() ? 1 : -2); s.nr = 2; s.zs0 = c.choose(2); s.zs1 = s.nz; s.rs0 = 0; s.rs1 = 2; s.overlap = c.range(0, 1); s.chunk = c.pick({2, 6}); const int who = c.choose(3);
    for(int z = 0; z < s.nz; z++) s.parts.push_back({z, z + 1, 0, 2, who == 0 ? z % s.jobs : who == 1 ? (s.nz + s.jobs - 1 - z) % s.jobs : s.jobs - 1});
    whole_run(c, s, full_field, c.choose(c.thorough ? 6 : 2), 0, false);
  });
  h.space("settings", "chunk sizes, overlap, downsampling, storage regions and simulation chunks", 3, [](Ctx& c) {
    Setup s; s.nz = 5; s.nr = 4; s.jobs = c.range(1, c.thorough ? 3 : 2); s.ds = c.range(1, 3); s.overlap = c.range(0, 2); s.chunk = c.pick({2, 3, 8}); s.calc_t = c.pick({1, 2, 4}); s.calc_lin = c.pick({1, 2, 8}); s.cache = c.lite ? 2 : c.pick({1, 5});
    s.t_end = c.lite ? 1.0 : c.pick({1.0, 1.75}); if(s.t_end > 1 && s.chunk == 8) s.timestep = 0.25; const int regs[][4] = {{0, 5, 0, 4}, {1, 4, 0, 3}, {2, 4, 1, 4}, {0, 3, 2, 4}, {3, 5, 0, 1}}; int r = c.choose(c.lite ? 2 : 5); s.zs0 = regs[r][0]; s.zs1 = regs[r][1]; s.rs0 = regs[r][2]; s.rs1 = regs[r][3];
    if(r == 0) { s.whole = true; s.c8 = s.calc_t == 4 && s.calc_lin == 8; }
    int p = c.choose(c.thorough ? 3 : 2); s.parts = p == 0 ? std::vector<meep::chunk_def>{{0, 3, 0, 4, 0}, {3, 5, 0, 4, s.jobs - 1}} : p == 1 ? std::vector<meep::chunk_def>{{0, 5, 0, 1, s.jobs - 1}, {0, 2, 1, 4, 0}, {2, 5, 1, 4, s.jobs / 2}} : std::vector<meep::chunk_def>{{0, 1, 0, 4, 0}, {1, 5, 0, 2, s.jobs - 1}, {1, 5, 2, 4, s.jobs / 2}};
    whole_run(c, s, full_field, 0, 0, false, r % 2);
  });
  h.space("surroundings", "scratch directories that are missing, shared, relative or hold leftovers, and resolutions", 2, [](Ctx& c) {
    Setup s; s.jobs = c.range(1, 2); s.parts = {{0, 2, 0, 3, 0}, {2, 4, 0, 3, s.jobs - 1}}; s.res = c.pick({1.0, 2.0, 4.0}); s.courant = c.pick({0.25, 0.5}); s.timestep = c.pick({0.25, 0.5, 1.0}); s.t_end = c.pick({1.0, 1.25, 2.0}); s.z_min = c.pick({-1.0, 0.0, 3.0}); int k = c.choose(5); bool rel = c.flag();
    struct Back { fs::path p = fs::current_path(); ~Back() { if(chdir(p.c_str())) std::abort(); } } back;
    Dirs d = dirs(c, c.flag()); fs::path real_local = d.local, real_global = d.global, real_out = d.out;
    if(rel) { if(chdir(c.scratch().c_str())) c.prune(); d = {"gf", "local", "global"}; }
    if(k == 1) d.local = d.global, real_local = real_global; if(k == 2) { d.local = d.local / "new"; } if(k == 3) { fs::create_directories(real_global / "eisvogel.global" / "merge"); std::ofstream(real_global / "eisvogel.global" / "merge" / "index.bin") << "left over"; std::ofstream(real_global / "eisvogel.global" / "calc_job_0") << "left over"; } if(k == 4) d.out = d.out / "";
    c.op("%s, resolution %g, courant %g, time step %g, z from %g, case %d%s", str(s).c_str(), s.res, s.courant, s.timestep, s.z_min, k, rel ? ", relative paths" : "");
    run_jobs(c, s, d.out, d.local, d.global, full_field, 0, 0, false); content_check(c, s, real_out, full_field); coords_check(c, s, real_out, full_field); c.nontrivial();
    if(k == 2) { c.check(fs::is_empty(real_local / "new"), "something is left in the scratch directory"); fs::remove(real_local / "new"); } clean_check(c, real_local, real_global);
  });
  h.space("schedules", "all schedules with a bounded number of interruptions at steps of the simulation and changes to the file system", 4, [](Ctx& c) {
    Setup s; int v = c.choose(c.thorough ? 4 : 2); s.jobs = v == 3 ? 3 : 2; s.nz = 3; s.nr = 2; s.rs1 = 2; s.zs1 = 3; s.timestep = 0.5; s.t_end = v == 0 ? 0.0 : 0.5; s.overlap = v % 2; s.chunk = 2; s.calc_lin = 4; s.calc_t = 4; s.parts = {{0, 1, 0, 2, 0}, {1, 3, 0, 2, s.jobs - 1}};
    if(s.t_end == 0) s.t_end = 0.25, s.timestep = 0.25;
    whole_run(c, s, full_field, -1, v == 3 ? 0 : c.lite ? 0 : 1, v != 3);
  });
  h.space("dynamic range", "field strengths over time in two neighbouring voxels", 3, [](Ctx& c) {
    Setup s; s.nz = 2; s.nr = 2; s.zs1 = 2; s.rs1 = 2; s.limited = true; s.dr = c.pick({4.0, 16.0}); s.abs_min = c.pick({0.0, 0.5}); s.overlap = 0; s.chunk = 4; s.calc_t = 4; s.jobs = 1; s.parts = c.flag() ? std::vector<meep::chunk_def>{{0, 1, 0, 2, 0}, {1, 2, 0, 2, 0}} : std::vector<meep::chunk_def>{{0, 2, 0, 2, 0}};
    double amp[2][3]; for(int v = 0; v < 2; v++) for(int k = 0; k < 3; k++) amp[v][k] = v == 1 && k > 0 ? (c.lite ? 0.0 : c.pick({0.0, 16.0})) : c.thorough ? c.pick({0.0, 0.25, 1.0, 4.0, 16.0}) : c.pick({0.0, 0.25, 1.0, 4.0});
    int where = c.choose(c.lite ? 1 : 3); auto f = [&](meep::component k, int iz, int ir, int step) -> double {
      int t = step / (int)std::lround(s.timestep / (s.courant / s.res)), v = iz == 0 && ir == 0 ? 0 : (iz == (where != 1) && ir == (where != 0)) ? 1 : -1; if(v < 0 || t > 2) return 0; return k == meep::Ez ? -amp[v][t] : amp[v][t] / 1024; };
    whole_run(c, s, f, 0, 0, false);
  });
  h.space("dynamic range in parts", "fields that decay over place and time, with divisions, margins and downsampling", 3, [](Ctx& c) {
    Setup s; s.nz = 5; s.nr = 4; s.jobs = c.range(1, 2); s.parts = parts(c, s, c.lite ? 1 : 2); s.limited = true; s.dr = c.pick({8.0, 1024.0}); s.abs_min = c.pick({0.0, 1.0 / 3}); s.ds = c.range(1, 2); s.overlap = c.range(0, 2); s.t_end = 2.0; s.calc_t = 3; s.zs0 = c.choose(2); s.zs1 = 5; s.rs0 = c.choose(2); s.rs1 = 4;
    auto f = [&](meep::component k, int iz, int ir, int step) -> double { U h = (U)((iz * 7 + ir * 3 + step * 5) * 2654435761u); double a = std::ldexp(1.0, -(int)((h >> 9) % 6) - step / 2 - iz); return k == meep::Ez ? a : -a; };
    whole_run(c, s, f, 0, 0, false);
  });
  h.space("requests", "storage regions that are not aligned with voxels", 2, [](Ctx& c) {
    Setup s; s.jobs = 1; s.nz = 6; s.nr = 5; s.parts = {{0, 6, 0, 5, 0}}; s.ds = c.range(1, 2); s.res = 4; s.overlap = 1; s.courant = 0.5; s.timestep = 0.25; s.t_end = 0.5; const double q = c.pick({0.25, 0.1, 0.3}); const int m = (int)std::lround(1 / q) + 1;
    const bool axis = c.flag(); double a = c.range(0, m) * q, w = c.choose(m) * q + q; s.res = c.pick({4.0, 10.0, 3.0}); s.z_min = c.pick({-1.0, -0.3}); double lo[2] = {0, 0}, len[2] = {5, 6}; lo[axis] = a; len[axis] = w; c.op("request from %g, size %g voxels along %s", a, w, axis ? "z" : "r");
    Dirs d = dirs(c, false); s.req = true; s.req_r0 = lo[0] / s.res; s.req_r1 = (lo[0] + len[0]) / s.res; s.req_z0 = s.z_min + lo[1] / s.res; s.req_z1 = s.z_min + (lo[1] + len[1]) / s.res; if(s.req_r1 > 1.25) s.req_r1 = 1.25;
    try { run_jobs(c, s, d.out, d.local, d.global, full_field, 0, 0, false); } catch(const std::runtime_error&) { c.check(w < 1.001, "a region of %g voxels is refused", w); return; } c.check(w > 0.999, "accepted %g", w);
    RZTCoordVector x, y; { Quiet k; GF g(d.out, 1); x = g.start_coords(); y = g.end_coords(); }
    double v[4] = {x[0] * s.res, y[0] * s.res, (x[1] - s.z_min) * s.res, (y[1] - s.z_min) * s.res}, want[4] = {lo[0], s.req_r1 * s.res, lo[1], lo[1] + len[1]}; int n[4];
    for(int k = 0; k < 4; k++) { n[k] = (int)std::lround(v[k]); c.check(std::fabs(v[k] - n[k]) < 1e-4, "the stored region ends within a voxel, at %g", v[k]); c.check(std::fabs(v[k] - want[k]) < 1.999, "the stored region reaches to %g, requested was %g", v[k], want[k]); }
    s.rs0 = n[0]; s.rs1 = n[1]; s.zs0 = n[2]; s.zs1 = n[3]; content_check(c, s, d.out, full_field); coords_check(c, s, d.out, full_field); c.nontrivial();
  });
  h.space("refusals", "requests that cannot be met leave everything alone", 1, [](Ctx& c) {
    Setup s; s.parts = {{0, 4, 0, 3, 0}}; Dirs d = dirs(c, true); int k = c.choose(6); bool exists = c.flag(); if(k == 0) exists = true;
    if(exists) std::ofstream(d.out / "index.bin") << "precious"; Quiet q; bool threw = false; s.jobs = k == 0 ? c.range(1, 2) : 1;
    try {
      if(k == 0) run_jobs(c, s, d.out, d.local, d.global, full_field, c.choose(s.jobs), 0, false);
      else if(k <= 3) { CylinderGeometry g(2.0f, -1.0f, 1.0f, [](float, float) { return 1.0f; }); InfEDipoleAntenna a(0.0f, 1.0f, 0.0f, [](float) { return 1.0f; }); GreensFunctionCalculator::MEEP::CylindricalGreensFunctionCalculator x(g, k == 1 ? CylinderRegion(0.0f, 2.5f, -1.0f, 1.0f) : k == 2 ? CylinderRegion(0.0f, 2.0f, -1.5f, 1.0f) : CylinderRegion(1.0f, 1.0f, -1.0f, 1.0f), a, 1.0f); }
      else { meep::world w; w.chunks = s.parts; w.field = full_field; w.wait = [](int) { }; w.point = [](int, const char*) { }; meep::the_world = &w; CylinderGeometry g(k == 4 ? 2.25f : 2.0f, -1.0f, k == 5 ? 1.25f : 1.0f, [](float, float) { return 1.0f; }); InfEDipoleAntenna a(0.0f, 1.0f, 0.0f, [](float) { return 1.0f; }); GreensFunctionCalculator::MEEP::CylindricalGreensFunctionCalculator x(g, a, 1.0f); fs::remove_all(d.out); exists = false; x.Calculate(d.out, d.local, d.global, 0.5, 2.0, 0.5, 1.0, 1, 100, 0, 0, 4, 2, 4, 4); }
    } catch(const std::exception&) { threw = true; }
    meep::the_world = nullptr; c.check(threw, "no error is raised"); c.nontrivial(); c.op("case %d", k);
    if(exists) { std::ifstream i(d.out / "index.bin"); std::string t; i >> t; c.check(t == "precious", "an existing Green's function has been damaged"); }
  });
  return mc::run_main(h, argc, argv);
}
