// P27: control file, command line and option database to settings; settings to the objects of the solver (real utilities/controlparser.cpp,
// aoptionparser.cpp, afactory.cpp, spatial/abctypemap.cpp; Boost's readers replaced by stand-ins over a table of settings whose numbers are symbolic).
#include "cfginc/sstream"
#include "flowfix.hpp"
#include <boost/program_options/parsers.hpp>
#define private public
#define protected public
#include "utilities/controlparser.hpp"
#include "utilities/aoptionparser.hpp"
#include "utilities/aerrorhandling.hpp"
#include "utilities/afactory.hpp"
#include "spatial/limitedlinearreconstruction.hpp"
#include "spatial/musclreconstruction.hpp"
#include "ode/nonlinearrelaxation.hpp"
#undef private
#undef protected
#include "se_cfg.hpp"
// access to members that are private by default
template<class Tag, typename Tag::type M> struct Rob { friend typename Tag::type peek(Tag) { return M; } };
#define ROB(N, C, M) struct N { typedef const freal C::*type; friend type peek(N); }; template struct Rob<N, &C::M>;
typedef VenkatakrishnanLimiter<freal,4> Ven4; typedef VenkatakrishnanLimiter<freal,1> Ven1; typedef WENOReconstruction<freal,4> Wen4; typedef WENOReconstruction<freal,1> Wen1;
ROB(RV4, Ven4, K) ROB(RV1, Ven1, K) ROB(RW4, Wen4, lambda) ROB(RW1, Wen1, lambda)
static double lparam(const SolutionReconstruction<freal,4>* q, int kind) { return kind == 1 ? static_cast<const Ven4*>(q)->*peek(RV4()) : static_cast<const Wen4*>(q)->*peek(RW4()); }
static double lparam(const SolutionReconstruction<freal,1>* q, int kind) { return kind == 1 ? static_cast<const Ven1*>(q)->*peek(RV1()) : static_cast<const Wen1*>(q)->*peek(RW1()); }
namespace po = boost::program_options;
static int nr_, ni_;
static std::string R(const char* n) { se_cfg_real[nr_] = se_real(n); std::string s = "@"; s += std::to_string(nr_++); return s; }
static std::string I(const char* n) { se_cfg_int[ni_] = se_int(n, -1000000, 1000000); std::string s = "#"; s += std::to_string(ni_++); return s; }
static double rv(const std::string& s) { double d; long i; bool r; se_cfg_number(s, d, i, r); return d; }
static long iv(const std::string& s) { double d; long i; bool r; se_cfg_number(s, d, i, r); return i; }
static long pick(const char* n, long k) { return se_choose(n, 0, k-1); }
// the spelling of a name: as documented, lower case, upper case
static std::string spell(const char* n, long how) { std::string s = n; for (size_t i = 0; i < s.size(); i++) { if (how == 1 && s[i] >= 'A' && s[i] <= 'Z') s[i] = (char)(s[i]-'A'+'a'); if (how == 2 && s[i] >= 'a' && s[i] <= 'z') s[i] = (char)(s[i]-'a'+'A'); } return s; }
static std::string up(const std::string& n) { return spell(n.c_str(), 2); }
static void same(const std::string& a, const std::string& b, const char* l) { se_assert(a == b, l); }
struct File { std::string mesh, vtu, log, hist, flow, gamma, aoa, Minf, Tinf, Reinf, Pr, cv, wall, oth, surf, vol, sim, ft, tint, tord, pcfl, pdt, flux, grad, lim, lpar, ptt, c0, c1, tol, it, ic0, ic1, itol, iit, jac, nlu, minf, minr; };
static void put(const char* p, const std::string& v) { if (!v.empty()) se_cfg_put(p, v); }
static const char* const FLUXES[7] = {"LLF", "VanLeer", "HLL", "AUSM", "Roe", "HLLC", "AUSMPlus"}; static const char* const GRADS[3] = {"none", "leastSquares", "greenGauss"}; static const char* const LIMS[5] = {"none", "Venkatakrishnan", "VanAlbada", "WENO", "BarthJespersen"};
static const char* const BCS[8] = {"slipwall", "farfield", "inflowoutflow", "subsonic_inflow", "extrapolation", "periodic", "isothermalwall", "adiabaticwall"}; static const BCType BCT[8] = {SLIP_WALL_BC, FARFIELD_BC, INFLOW_OUTFLOW_BC, SUBSONIC_INFLOW_BC, EXTRAPOLATION_BC, PERIODIC_BC, ISOTHERMAL_WALL_BC, ADIABATIC_WALL_BC};
static File base() { nr_ = ni_ = 0; se_cfg_clear(); pm_options_clear(); File f; f.mesh = "dir/Mesh.msh"; f.vtu = "Out.vtu"; f.log = "Log"; f.hist = "true"; f.flow = "euler"; f.gamma = R("gamma"); f.aoa = R("aoa"); f.Minf = R("Minf"); f.sim = "steady"; f.flux = "Roe"; f.grad = "leastSquares"; f.lim = "none"; f.ptt = "explicit"; f.c0 = R("cfl0"); f.c1 = R("cfl1"); f.tol = R("tol"); f.it = I("maxit"); return f; }
static void visc(File& f) { f.flow = "NavierStokes"; f.Tinf = R("Tinf"); f.Reinf = R("Reinf"); f.Pr = R("Pr"); }
static void init(File& f) { f.ic0 = R("icfl0"); f.ic1 = R("icfl1"); f.itol = R("itol"); f.iit = I("imaxit"); }
static void implicit(File& f) { f.ptt = "implicit"; f.jac = "consistent"; f.nlu = "full"; }
static void emit(const File& f) {
  put("io.mesh_file", f.mesh); put("io.solution_output_file", f.vtu); put("io.log_file_prefix", f.log); put("io.convergence_history_required", f.hist); put("flow_conditions.flow_type", f.flow); put("flow_conditions.adiabatic_index", f.gamma); put("flow_conditions.angle_of_attack", f.aoa); put("flow_conditions.freestream_Mach_number", f.Minf); put("flow_conditions.freestream_temperature", f.Tinf); put("flow_conditions.freestream_Reynolds_number", f.Reinf); put("flow_conditions.Prandtl_number", f.Pr); put("flow_conditions.use_constant_viscosity", f.cv);
  put("bc.listof_output_wall_boundaries", f.wall); put("bc.listof_output_other_boundaries", f.oth); put("bc.surface_output_file_prefix", f.surf); put("bc.volume_output_file_prefix", f.vol); put("time.simulation_type", f.sim); put("time.final_time", f.ft); put("time.time_integrator", f.tint); put("time.temporal_order", f.tord); put("time.physical_cfl", f.pcfl); put("time.physical_time_step", f.pdt);
  put("spatial_discretization.inviscid_flux", f.flux); put("spatial_discretization.gradient_method", f.grad); put("spatial_discretization.limiter", f.lim); put("spatial_discretization.limiter_parameter", f.lpar); put("pseudotime.pseudotime_stepping_type", f.ptt); put("pseudotime.main.cfl_min", f.c0); put("pseudotime.main.cfl_max", f.c1); put("pseudotime.main.tolerance", f.tol); put("pseudotime.main.max_timesteps", f.it); put("pseudotime.initialization.cfl_min", f.ic0); put("pseudotime.initialization.cfl_max", f.ic1); put("pseudotime.initialization.tolerance", f.itol); put("pseudotime.initialization.max_timesteps", f.iit); put("Jacobian_inviscid_flux", f.jac); put("pseudotime.nonlinear_update_scheme", f.nlu); put("pseudotime.min_nonlinear_relaxation_factor", f.minr); }
// the options object is built in memory with arbitrary contents
template<class F> static FlowParserOptions& fresh(F f) { void* p = malloc(sizeof(FlowParserOptions)); if (!se_symbolic()) memset(p, 0xa5, sizeof(FlowParserOptions)); return *new (p) FlowParserOptions(f()); }
static FlowParserOptions parse_(int argc, const char* const* argv) { po::options_description d("help"); const po::variables_map v = parse_cmd_options(argc, argv, d); return parse_flow_controlfile(argc, argv, v); }
static FlowParserOptions& parse() { static const char* const argv[2] = {"fvens", "control"}; return fresh([&]{ return parse_(2, argv); }); }
static void req(const FlowParserOptions& o, const File& f) { // entries that every file has
  se_assert(o.lognres == (f.hist == "true"), "history flag"); same(o.flowtype, up(f.flow), "flow type"); se_assert_eq(o.gamma, rv(f.gamma), "adiabatic index"); { const double x = rv(f.aoa), e = o.alpha-x*(M_PI/180); se_assert_le(e*e, 1e-18*x*x, "angle of attack in radians"); } se_assert_eq(o.Minf, rv(f.Minf), "Mach number"); same(o.vtu_output_file, f.vtu, "solution file");
  const bool ns = up(f.flow) == "NAVIERSTOKES"; se_assert(o.viscsim == ns, "viscous"); if (ns) { se_assert_eq(o.Tinf, rv(f.Tinf), "temperature"); se_assert_eq(o.Reinf, rv(f.Reinf), "Reynolds number"); se_assert_eq(o.Pr, rv(f.Pr), "Prandtl number"); } se_assert(o.useconstvisc == (ns && f.cv == "true"), "constant viscosity");
  same(o.sim_type, up(f.sim), "simulation type"); same(o.invflux, up(f.flux), "flux"); same(o.gradientmethod, up(f.grad), "gradients"); se_assert(o.order2 == (up(f.grad) != "NONE"), "second order"); same(o.limiter, up(f.lim), "limiter"); same(o.pseudotimetype, up(f.ptt), "pseudotime type");
  se_assert_eq(o.initcfl, rv(f.c0), "initial CFL"); se_assert_eq(o.endcfl, rv(f.c1), "final CFL"); se_assert_eq(o.tolerance, rv(f.tol), "tolerance"); se_assert_ieq(o.maxiter, iv(f.it), "iterations");
  if (f.ic0.empty()) se_assert_ieq(o.usestarter, 0, "no initialisation"); else { se_assert_ieq(o.usestarter, 1, "initialisation"); se_assert_eq(o.firstinitcfl, rv(f.ic0), "initial CFL, initialisation"); se_assert_eq(o.firstendcfl, rv(f.ic1), "final CFL, initialisation"); se_assert_eq(o.firsttolerance, rv(f.itol), "tolerance, initialisation"); se_assert_ieq(o.firstmaxiter, iv(f.iit), "iterations, initialisation"); }
  if (up(f.ptt) == "IMPLICIT") { same(o.invfluxjac, up(f.jac) == "CONSISTENT" ? up(f.flux) : up(f.jac), "flux of the Jacobian"); same(o.nl_update_scheme, up(f.nlu), "update scheme"); se_assert_eq(o.min_nl_update, f.minr.empty() ? 0.2 : rv(f.minr), "smallest relaxation factor"); }
  se_assert(o.vol_output_reqd == (f.vol.empty() ? "NO" : "YES"), "volume output"); if (!f.vol.empty()) same(o.volnameprefix, f.vol, "volume output prefix"); se_observe(o.alpha, "alpha"); se_observe(o.initcfl, "cfl"); }
extern "C" void harness_flow_conditions() { File f = base(); const long k = pick("flow", 3), sp = pick("spelling", 3); if (k) visc(f); f.flow = spell(k == 0 ? "Euler" : "NavierStokes", sp); if (k == 2) f.cv = pick("cv", 2) ? "true" : "false"; f.hist = pick("hist", 2) ? "true" : "false"; emit(f); FlowParserOptions& o = parse(); req(o, f); same(o.meshfile, f.mesh, "mesh file"); same(o.logfile, f.log, "log prefix"); se_assert(!o.write_final_lin_sys, "linear system not written by default"); if (k == 0) { se_assert_eq(o.Tinf, 298, "temperature of inviscid flow"); se_assert(o.Reinf > 1e300, "Reynolds number of inviscid flow"); } 
  const FlowPhysicsConfig c = extract_spatial_physics_config(o); se_assert_eq(c.gamma, o.gamma, "gamma"); se_assert_eq(c.Minf, o.Minf, "Minf"); se_assert_eq(c.Tinf, o.Tinf, "Tinf"); se_assert_eq(c.aoa, o.alpha, "aoa"); if (k) { se_assert_eq(c.Reinf, o.Reinf, "Reinf"); se_assert_eq(c.Pr, o.Pr, "Pr"); } se_assert(c.viscous_sim == o.viscsim, "viscous"); se_assert(c.const_visc == o.useconstvisc, "constant viscosity"); }
extern "C" void harness_spatial() { File f = base(); implicit(f); f.flux = spell(FLUXES[pick("flux", 7)], pick("spelling", 3)); f.grad = spell(GRADS[pick("grad", 3)], se_param("sp", 0)); f.lim = spell(LIMS[pick("lim", se_param("nlim", 5))], se_param("sp", 0)); const long lp = pick("lpar", 2), j = pick("jac", 3); if (lp) f.lpar = R("lpar"); f.jac = j == 0 ? "Consistent" : spell(j == 1 ? "HLLC" : "Roe", 1); emit(f); FlowParserOptions& o = parse(); req(o, f); o.limiter_param = se_pos("par");
  const FlowNumericsConfig c = extract_spatial_numerics_config(o), d = firstorder_spatial_numerics_config(o); for (const FlowNumericsConfig* q : {&c, &d}) { same(q->conv_numflux, o.invflux, "flux"); same(q->conv_numflux_jac, o.invfluxjac, "flux of the Jacobian"); } same(c.gradientscheme, o.gradientmethod, "gradients"); same(c.reconstruction, o.limiter, "limiter"); se_assert(c.order2 == o.order2, "order"); se_assert_eq(c.limiter_param, o.limiter_param, "limiter parameter"); same(d.gradientscheme, "NONE", "first order"); same(d.reconstruction, "NONE", "first order"); se_assert(!d.order2, "first order"); }
// known finding: the entry is never read
extern "C" void harness_limiter() { File f = base(); f.lim = LIMS[pick("lim", 5)]; f.lpar = R("lpar"); emit(f); FlowParserOptions& o = parse(); se_assert_eq(o.limiter_param, rv(f.lpar), "limiter parameter"); se_observe(o.initcfl, "cfl"); }
extern "C" void harness_pseudotime() { File f = base(); const long t = pick("type", 2), i = pick("init", 2), m = pick("minr", 2), s = pick("scheme", 2), sp = pick("spelling", 3); if (i) init(f); if (t) { implicit(f); f.nlu = spell(s ? "Robust_Flow" : "Full", sp); if (m) f.minr = R("minr"); } f.ptt = spell(t ? "Implicit" : "Explicit", sp); emit(f); FlowParserOptions& o = parse(); req(o, f); }
extern "C" void harness_time() { File f = base(); const long u = pick("time", 3), sp = pick("spelling", 3); f.sim = spell(u ? "Unsteady" : "Steady", sp); if (u) { f.ft = R("final"); f.tint = spell(u == 1 ? "Tvdrk" : "Bdf", sp); f.tord = I("order"); if (u == 1) f.pcfl = R("pcfl"); else f.pdt = R("dt"); } emit(f); FlowParserOptions& o = parse(); req(o, f); if (u) { se_assert_eq(o.final_time, rv(f.ft), "final time"); same(o.time_integrator, up(f.tint), "integrator"); se_assert_ieq(o.time_order, iv(f.tord), "order in time"); if (u == 1) se_assert_eq(o.phy_cfl, rv(f.pcfl), "physical CFL"); else se_assert_eq(o.phy_timestep, rv(f.pdt), "physical time step"); } else same(o.time_integrator, "NONE", "no integrator"); }
extern "C" void harness_output_lists() { File f = base(); const long nw = pick("walls", 4), no = pick("others", 3); std::string w[3], q[2]; for (int i = 0; i < nw; i++) { w[i] = I(lab("w%", i)); f.wall += (i ? (i == 1 ? "  " : " ") : "")+w[i]; } for (int i = 0; i < no; i++) { q[i] = I(lab("o%", i)); f.oth += (i ? " " : "")+q[i]; } if (nw || no) f.surf = "Surf"; if (pick("vol", 2)) f.vol = "Vol"; emit(f); FlowParserOptions& o = parse(); req(o, f);
  se_assert_ieq(o.num_out_walls, nw, "number of walls"); se_assert_ieq(o.num_out_others, no, "number of others"); bool ok = (long)o.lwalls.size() == nw && (long)o.lothers.size() == no; se_assert(ok, "lists of boundaries"); if (!ok) return; for (int i = 0; i < nw; i++) se_assert_ieq(o.lwalls[i], iv(w[i]), "wall"); for (int i = 0; i < no; i++) se_assert_ieq(o.lothers[i], iv(q[i]), "other boundary"); if (nw || no) same(o.surfnameprefix, f.surf, "surface prefix"); }
extern "C" void harness_boundaries() { File f = base(); emit(f); const int n = (int)pick("nbc", 4); std::string mk[3], v[3][3]; int t[3], nv[3];
  for (int i = 0; i < n; i++) { t[i] = i ? (t[0]+3*i) % 8 : (int)pick("type", 8); std::string p = "bc.bc"; p += std::to_string(i); mk[i] = I(lab("marker%", i)); se_cfg_put(p+".type", spell(BCS[t[i]], i == 0 ? 2*pick("upper", 2) : 0)); se_cfg_put(p+".marker", mk[i]); nv[i] = t[i] == 3 || t[i] == 6 ? 2 : t[i] == 7 ? 1 : t[i] == 5 ? 2 : 0; if (nv[i]) { std::string s; for (int k = 0; k < nv[i]; k++) { v[i][k] = t[i] == 5 ? I(lab("o%_%", i, k)) : R(lab("v%_%", i, k)); s += (k ? " " : "")+v[i][k]; } se_cfg_put(p+(t[i] == 5 ? ".options" : ".boundary_values"), s); } }
  FlowParserOptions& o = parse(); req(o, f); se_assert_ieq((long)o.bcconf.size(), n, "number of boundary conditions"); if ((int)o.bcconf.size() != n) return; const FlowPhysicsConfig pc = extract_spatial_physics_config(o); se_assert_ieq((long)pc.bcconf.size(), n, "number of boundary conditions"); if ((int)pc.bcconf.size() != n) return;
  for (int i = 0; i < n; i++) for (const FlowBCConfig* b : {(const FlowBCConfig*)&o.bcconf[i], &pc.bcconf[i]}) { se_assert_ieq(b->bc_type, BCT[t[i]], "type of a boundary condition"); se_assert_ieq(b->bc_tag, iv(mk[i]), "marker of a boundary condition"); const bool per = t[i] == 5; bool ok = (int)b->bc_vals.size() == (per ? 0 : nv[i]) && (int)b->bc_opts.size() == (per ? nv[i] : 0); se_assert(ok, "values of a boundary condition"); if (!ok) return; for (int k = 0; k < nv[i]; k++) if (per) se_assert_ieq(b->bc_opts[k], iv(v[i][k]), "option of a boundary condition"); else se_assert_eq(b->bc_vals[k], rv(v[i][k]), "value of a boundary condition"); } }
extern "C" void harness_typemap() { se_assert_ieq((long)bcTypeMap.size(), 8, "names of boundary conditions"); for (int i = 0; i < 8; i++) { se_assert_ieq(bcTypeMap.right.at(BCS[i]), BCT[i], "name to type"); same(bcTypeMap.left.at(BCT[i]), BCS[i], "type to name"); } se_observe(1, "one"); }
// the command line and the option database override the file; order of arguments is free
extern "C" void harness_overrides() { File f = base(); emit(f); const long m = pick("mesh", 3), w = pick("write", 4), x = pick("extra", 3), l = pick("log", 2); const char* a[12]; int n = 0; a[n++] = "fvens"; a[n++] = "control"; if (x == 1) { a[n++] = "-options_file"; a[n++] = "mesh_file"; a[n++] = "--unknown"; } if (m == 1) { a[n++] = "--mesh_file"; a[n++] = "Other.su2"; } if (w) { a[n++] = w == 1 ? "--write_final_linear_system=true" : "--write_final_linear_system"; if (w > 1) a[n++] = w == 2 ? "false" : "true"; } if (m == 2) a[n++] = "--mesh_file=Other.su2"; if (x == 2) { a[n++] = "--help"; } if (l) pm_option_str("-fvens_log_file_prefix", "New/log"); a[n] = nullptr;
  po::options_description d("help"); const po::variables_map v = parse_cmd_options(n, a, d); se_assert((v.count("help") > 0) == (x == 2), "help"); FlowParserOptions& o = fresh([&]{ return parse_flow_controlfile(n, a, v); }); req(o, f); same(o.meshfile, m ? "Other.su2" : f.mesh, "mesh file"); se_assert(o.write_final_lin_sys == (w == 1 || w == 3), "writing of the linear system"); same(o.logfile, l ? "New/log" : f.log, "log prefix"); }
// a missing entry is an error, never a silent default
extern "C" void harness_missing() { static const char* const RQ[24] = {"io.mesh_file", "io.solution_output_file", "io.log_file_prefix", "io.convergence_history_required", "flow_conditions.flow_type", "flow_conditions.adiabatic_index", "flow_conditions.angle_of_attack", "flow_conditions.freestream_Mach_number", "flow_conditions.freestream_temperature", "flow_conditions.freestream_Reynolds_number", "flow_conditions.Prandtl_number", "bc.surface_output_file_prefix", "time.simulation_type", "spatial_discretization.inviscid_flux", "spatial_discretization.gradient_method", "spatial_discretization.limiter", "pseudotime.pseudotime_stepping_type", "pseudotime.main.cfl_min", "pseudotime.main.cfl_max", "pseudotime.main.tolerance", "pseudotime.main.max_timesteps", "pseudotime.initialization.cfl_min", "Jacobian_inviscid_flux", "pseudotime.nonlinear_update_scheme"};
  File f = base(); visc(f); init(f); implicit(f); f.wall = I("w0"); f.surf = "Surf"; emit(f); const long k = pick("missing", 26); if (k < 24) se_cfg_drop(RQ[k]); if (k == 24) se_cfg_put("flow_conditions.flow_type", "RANS"); bool threw = false; try { FlowParserOptions& o = parse(); se_observe(o.alpha, "alpha"); } catch (std::exception&) { threw = true; } se_assert(threw == (k < 25), "missing or unsupported entries are errors"); }
// ---- options of PETSc's database
template<class F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
extern "C" void harness_petsc_options() { pm_options_clear(); const long set = pick("set", 2), other = pick("other", 2); const double x = se_real("x"), dflt = se_real("default"); const long i = se_int("i", -100000, 100000); if (other) { pm_option_real("-other", 3); pm_option_str("-q_other", "zz"); } if (set) { pm_option_real("-q_real", x); pm_option_int("-q_int", i); pm_option_real("-q_bool", 1); pm_option_real("-q_no", 0); }
  se_assert_eq(parseOptionalPetscCmd_real("-q_real", dflt), set ? x : dflt, "optional real"); se_assert(parsePetscCmd_isDefined("-q_no") == (bool)set, "defined"); se_assert(parseOptionalPetscCmd_bool("-q_bool") == (bool)set, "optional flag"); se_assert(!parseOptionalPetscCmd_bool("-q_no"), "optional flag set to no");
  int v = 0; bool b = false, t; t = throws([&]{ v = parsePetscCmd_int("-q_int"); }); se_assert(t == !set, "missing integer is an error"); if (!t) se_assert_ieq(v, i, "integer"); t = throws([&]{ b = parsePetscCmd_bool("-q_bool"); }); se_assert(t == !set, "missing flag is an error"); if (!t) se_assert(b, "flag"); if (set) { t = throws([&]{ b = parsePetscCmd_bool("-q_no"); }); se_assert(!t && !b, "flag"); } se_observe(x, "x"); }
extern "C" void harness_petsc_strings() { pm_options_clear(); const long n = pick("length", 5), room = se_choose("room", 1, 5); static const char* const S[5] = {"", "a", "bc", "def", "ghij"}; if (pick("set", 2)) { if (n > room) return; pm_option_str("-q_str", S[n]); same(parsePetscCmd_string("-q_str", room), S[n], "string"); } else { bool in = false; try { parsePetscCmd_string("-q_str", room); } catch (fvens::InputNotGivenError&) { in = true; } se_assert(in, "missing string is an error"); } se_observe(1, "one"); }
extern "C" void harness_petsc_arrays() { pm_options_clear(); const int n = (int)se_choose("n", 0, 4), room = (int)se_choose("room", 1, 4); PetscInt a[4]; for (int i = 0; i < n; i++) a[i] = (int)se_int(lab("a%", i), -100000, 100000); const bool set = pick("set", 2); if (set) pm_option_ints("-q_arr", a, n); const int m = n < room ? n : room; std::vector<int> r; bool t = throws([&]{ r = parsePetscCmd_intArray("-q_arr", room); }); se_assert(t == !set, "missing array is an error"); for (int k = 0; k < 2; k++) { if (k) r = parseOptionalPetscCmd_intArray("-q_arr", room); else if (!set) continue; se_assert_ieq((long)r.size(), set ? m : 0, "length of an array"); if (set && (int)r.size() == m) for (int i = 0; i < m; i++) se_assert_ieq(r[i], a[i], "entry of an array"); } se_observe(1, "one"); }
// ---- objects by name
static const void* vt(const void* p) { return *(const void* const*)p; }
extern "C" void harness_fluxes() { IdealGasPhysics<freal> p(1.4, 0.5, 290.0, 1000.0, 0.72); const InviscidFlux<freal>* w[7] = {new LocalLaxFriedrichsFlux<freal>(&p), new VanLeerFlux<freal>(&p), new HLLFlux<freal>(&p), new AUSMFlux<freal>(&p), new RoeFlux<freal>(&p), new HLLCFlux<freal>(&p), new AUSMPlusFlux<freal>(&p)};
  for (int i = 0; i < 7; i++) { const InviscidFlux<freal>* q = create_const_inviscidflux<freal>(up(FLUXES[i]), &p); se_assert(q && vt(q) == vt(w[i]), "flux by name"); se_assert(q && q->physics == &p, "gas of the flux"); delete q; delete w[i]; } se_assert(create_const_inviscidflux<freal>("OTHER", &p) == nullptr, "unknown flux"); se_observe(1, "one"); }
template<int nv> static void by_name(const UMesh<freal,2>& m, const double* rc, const double* rb, const amat::Array2d<freal>& gr, double par) {
  const GradientScheme<freal,nv>* w[3] = {new ZeroGradients<freal,nv>(&m, rc, rb), new WeightedLeastSquaresGradients<freal,nv>(&m, rc, rb), new GreenGaussGradients<freal,nv>(&m, rc, rb)}; for (int i = 0; i < 3; i++) { const GradientScheme<freal,nv>* q = create_const_gradientscheme<freal,nv>(up(GRADS[i]), &m, rc, rb); se_assert(q && vt(q) == vt(w[i]), "gradients by name"); if (!q) return; se_assert(q->m == &m && q->rc == rc && q->rcbp == rb, "gradients: mesh and centres"); delete q; delete w[i]; }
  const SolutionReconstruction<freal,nv>* x[5] = {new LinearUnlimitedReconstruction<freal,nv>(&m, rc, rb, gr), new VenkatakrishnanLimiter<freal,nv>(&m, rc, rb, gr, 1.0), new MUSCLVanAlbada<freal,nv>(&m, rc, rb, gr), new WENOReconstruction<freal,nv>(&m, rc, rb, gr, 1.0), new BarthJespersenLimiter<freal,nv>(&m, rc, rb, gr)};
  for (int i = 0; i < 5; i++) { const SolutionReconstruction<freal,nv>* q = create_const_reconstruction<freal,nv>(up(LIMS[i]), &m, rc, rb, gr, par); se_assert(q && vt(q) == vt(x[i]), "reconstruction by name"); if (!q) return; se_assert(q->m == &m && q->ri == rc && q->ribp == rb && &q->gr == &gr, "reconstruction: mesh and centres"); if (i == 1 || i == 3) se_assert_eq(lparam(q, i), par, "limiter parameter"); delete q; delete x[i]; } }
static UMesh<freal,2> small(Gen& g) { g.make(2, 1, 1, 0, false, true); g.nbtag = 1; g.ndtag = 0; for (int i = 0; i < g.nb; i++) g.btag[i][0] = 1; UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); m.globalElemIndex.resize(m.gnelem()); for (int i = 0; i < m.gnelem(); i++) m.globalElemIndex[i] = i; return m; }
extern "C" void harness_schemes() { Gen g; UMesh<freal,2> m = small(g); const double par = se_pos("par"); amat::Array2d<freal> rc(m.gnelem(), 2), rb(m.gnbface(), 2), gr(m.gnaface(), 2); rc.zeros(); rb.zeros(); gr.zeros(); m.compute_cell_centres(&rc(0,0)); by_name<4>(m, &rc(0,0), &rb(0,0), gr, par); by_name<1>(m, &rc(0,0), &rb(0,0), gr, par); se_observe(par, "par"); }
// the discretisation is built from the configuration it is given
extern "C" void harness_discretisation() { Gen g; UMesh<freal,2> m = small(g); Gas s = sym_gas(); const bool cv = pick("cv", 2), vs = pick("visc", 2), o2 = pick("order2", 2); FlowPhysicsConfig pc = phys_conf(s, vs, cv); pc.aoa = se_range("aoa", -1.5, 1.5); pc.bcconf.push_back(bc_conf(1, FARFIELD_BC)); const long fl = pick("flux", 7), fj = (fl+pick("jac", 2)*2) % 7, gd = pick("grad", 3), li = pick("lim", 5); const double par = se_pos("par"); FlowNumericsConfig nc = num_conf(up(FLUXES[fl]).c_str(), up(FLUXES[fj]).c_str(), up(GRADS[gd]).c_str(), up(LIMS[li]).c_str(), o2, par);
  const FlowFV_base<freal>* f = create_const_flowSpatialDiscretization<freal>(&m, pc, nc); const FlowFV_base<freal>* w = o2 ? (cv ? (const FlowFV_base<freal>*)new FlowFV<freal,true,true>(&m, pc, nc) : new FlowFV<freal,true,false>(&m, pc, nc)) : (cv ? (const FlowFV_base<freal>*)new FlowFV<freal,false,true>(&m, pc, nc) : new FlowFV<freal,false,false>(&m, pc, nc));
  se_assert(vt(f) == vt(w), "discretisation by order and viscosity"); const InviscidFlux<freal>* q[2] = {create_const_inviscidflux<freal>(up(FLUXES[fl]), &f->physics), create_const_inviscidflux<freal>(up(FLUXES[fj]), &f->physics)}; se_assert(vt(f->inviflux) == vt(q[0]), "flux of the discretisation"); const InviscidFlux<freal>* jf = o2 ? (cv ? static_cast<const FlowFV<freal,true,true>*>(f)->jiflux : static_cast<const FlowFV<freal,true,false>*>(f)->jiflux) : (cv ? static_cast<const FlowFV<freal,false,true>*>(f)->jiflux : static_cast<const FlowFV<freal,false,false>*>(f)->jiflux); se_assert(vt(jf) == vt(q[1]), "flux of the Jacobian"); se_assert(f->m == &m, "mesh"); se_assert(f->inviflux->physics == &f->physics, "gas of the flux");
  const GradientScheme<freal,4>* gs = create_const_gradientscheme<freal,4>(up(GRADS[gd]), &m, f->rch.getArray(), f->rcbptr); (void)gs; se_assert(vt(f->gradcomp) == vt(gs), "gradients of the discretisation"); const SolutionReconstruction<freal,4>* rs = create_const_reconstruction<freal,4>(up(LIMS[li]), &m, f->rch.getArray(), f->rcbptr, f->gr, par); se_assert(vt(f->lim) == vt(rs), "reconstruction of the discretisation"); if (li == 1 || li == 3) se_assert_eq(lparam(f->lim, li), par, "limiter parameter");
  se_assert_eq(f->physics.g, s.g, "gamma"); se_assert_eq(f->physics.Minf, s.Minf, "Minf"); se_assert_eq(f->physics.Tinf, s.Tinf, "Tinf"); se_assert_eq(f->physics.Reinf, s.Reinf, "Reinf"); se_assert_eq(f->physics.Pr, s.Pr, "Pr"); std::array<freal,4> ui = f->physics.compute_freestream_state(pc.aoa); for (int v = 0; v < 4; v++) { se_assert_eq(f->uinf[v], ui[v], "free stream"); se_observe(ui[v], "uinf"); } delete f; delete w; }
extern "C" void harness_update() { FlowParserOptions o; Gas s = sym_gas(); o.gamma = s.g; o.Minf = s.Minf; o.Tinf = s.Tinf; o.Reinf = s.Reinf; o.Pr = s.Pr; o.min_nl_update = se_range("minr", 0.001, 1); const long k = pick("scheme", 3); o.nl_update_scheme = k == 0 ? "FULL" : k == 1 ? "ROBUST_FLOW" : "OTHER"; IdealGasPhysics<freal> phy(s.g, s.Minf, s.Tinf, s.Reinf, s.Pr); FullUpdate<4> fu; FlowSimpleUpdate<4> ru(phy, 0.2);
  const NonlinearUpdate<4>* n = nullptr; bool t = throws([&]{ n = create_const_nonlinearUpdateScheme<4>(o); }); se_assert(t == (k == 2), "unknown update scheme is an error"); if (t) return; se_assert(vt(n) == (k ? vt(&ru) : vt(&fu)), "update scheme by name"); if (k) { const FlowSimpleUpdate<4>* r = static_cast<const FlowSimpleUpdate<4>*>(n); se_assert_eq(r->minfactor, o.min_nl_update, "smallest factor"); se_assert_eq(r->phy.g, s.g, "gas of the update scheme"); } se_observe(s.g, "g"); delete n; }
