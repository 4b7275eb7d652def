// P32: the drivers of whole cases (real utilities/casesolvers.cpp); the pseudo-time and time solvers, the post-processing and the mesh reader are
// replaced by stand-ins that record what they are asked to do and then succeed or fail as chosen.
#include "ioinc/fstream"
#include "cfginc/sstream"
#include "flowfix.hpp"
#define private public
#define protected public
#include "utilities/casesolvers.hpp"
#include "utilities/controlparser.hpp"
#include "utilities/aerrorhandling.hpp"
#include "spatial/aoutput.hpp"
#include "ode/aodesolver.hpp"
#include "mesh/ameshutils.hpp"
#undef private
#undef protected
struct SolveRec { int kind; const Spatial<freal,4>* space; SteadySolverConfig conf; KSP ksp; const NonlinearUpdate<4>* nl; bool alive, solved; const void* vt; const void* gvt; const void* rvt; const UMesh<freal,2>* m; double gamma, Minf, Tinf, aoa; const void *flux, *jflux; double u0; bool nlfull; double nlmin; Mat A, M; int steps; };
static SolveRec rec[4]; static int nrec, nsolve, outcome[4]; enum { OK_ = 0, TOL = 1, NUM = 2, NOTCONV = 3 };
static const void* vt(const void* p) { return *(const void* const*)p; }
struct _p_KSP { Mat A, M; bool opt; }; static int kmade, kgone;
extern "C" { PetscErrorCode KSPCreate(MPI_Comm, KSP* k) { *k = (KSP)malloc(sizeof(_p_KSP)); (*k)->A = (*k)->M = nullptr; (*k)->opt = false; kmade++; return PETSC_SUCCESS; } PetscErrorCode KSPSetOperators(KSP k, Mat A, Mat M) { k->A = A; k->M = M; return PETSC_SUCCESS; } PetscErrorCode KSPSetFromOptions(KSP k) { k->opt = true; return PETSC_SUCCESS; } PetscErrorCode KSPDestroy(KSP* k) { free(*k); *k = nullptr; kgone++; return PETSC_SUCCESS; } }
template<bool o2, bool cv> static const void* vtof(const UMesh<freal,2>& m, const FlowPhysicsConfig& p, const FlowNumericsConfig& n) { FlowFV<freal,o2,cv> f(&m, p, n); return vt(&f); }
static const UMesh<freal,2>* ref_m; static const FlowParserOptions* ref_o;
static void note(int kind, const Spatial<freal,4>* s, const SteadySolverConfig& c, KSP k, const NonlinearUpdate<4>* nl) { SolveRec& r = rec[nrec]; r.kind = kind; r.space = s; r.conf = c; r.ksp = k; r.nl = nl; r.alive = true; r.solved = false; r.vt = vt(s); const FlowFV_base<freal>* f = static_cast<const FlowFV_base<freal>*>(s); r.m = f->m; r.gvt = vt(f->gradcomp); r.rvt = vt(f->lim); r.gamma = f->physics.g; r.Minf = f->physics.Minf; r.Tinf = f->physics.Tinf; r.aoa = f->pconfig.aoa; r.flux = vt(f->inviflux); r.nlfull = false; r.nlmin = 0; if (nl) { FullUpdate<4> fu; r.nlfull = vt(nl) == vt(&fu); if (!r.nlfull) r.nlmin = static_cast<const FlowSimpleUpdate<4>*>(nl)->minfactor; } r.A = r.M = nullptr; if (k) { r.A = k->A; r.M = k->M; } nrec++; }
static void act(Vec u, TimingData& t) { const int i = nsolve++; rec[nrec-1].solved = true; double* U = pm_vec(u); rec[nrec-1].u0 = U[0]; for (int k = 0; k < 4*ref_m->gnelem(); k++) U[k] = 2*U[k]+(i+1); t.num_timesteps = rec[nrec-1].steps = 2+i; t.convhis.resize(2+i); for (int k = 0; k < 2+i; k++) t.convhis[k].step = 10*(i+1)+k; t.converged = outcome[i] == OK_; if (outcome[i] == TOL) throw Tolerance_error("not converged"); if (outcome[i] == NUM) throw Numerical_error("diverged"); }
namespace fvens {
TimingData::TimingData() : nelem(0), num_threads(1), lin_walltime(0), lin_cputime(0), ode_walltime(0), ode_cputime(0), total_lin_iters(0), avg_lin_iters(0), num_timesteps(0), converged(false), precsetup_walltime(0), precapply_walltime(0), prec_cputime(0) { }
template<> SteadySolver<4>::SteadySolver(const Spatial<freal,4>* const s, const SteadySolverConfig& c) : space(s), config(c) { }
template<> TimingData SteadySolver<4>::getTimingData() const { return tdata; }
template<> SteadyForwardEulerSolver<4>::SteadyForwardEulerSolver(const Spatial<freal,4>* const s, const Vec x, const SteadySolverConfig& c) : SteadySolver<4>(s, c) { (void)x; note(0, s, c, nullptr, nullptr); }
template<> SteadyForwardEulerSolver<4>::~SteadyForwardEulerSolver() { }
template<> StatusCode SteadyForwardEulerSolver<4>::solve(Vec u) { act(u, tdata); return 0; }
template<> SteadyBackwardEulerSolver<4>::SteadyBackwardEulerSolver(const Spatial<freal,4>* const s, const SteadySolverConfig& c, KSP k, const NonlinearUpdate<4>* const n) : SteadySolver<4>(s, c), solver(k), update_relax(n) { note(1, s, c, k, n); }
template<> SteadyBackwardEulerSolver<4>::~SteadyBackwardEulerSolver() { }
template<> StatusCode SteadyBackwardEulerSolver<4>::solve(Vec u) { se_assert(solver->opt, "the linear solver takes its options from the database"); act(u, tdata); return 0; }
}
static struct { int n; Vec u; int order; std::string log; double cfl, T; const Spatial<freal,4>* s; } tv;
namespace fvens {
template<> UnsteadySolver<4>::UnsteadySolver(const Spatial<freal,4>* const s, Vec x, const int o, const std::string l) : space(s), uvec(x), order(o), logfile(l) { }
template<> TVDRKSolver<4>::TVDRKSolver(const Spatial<freal,4>* const s, Vec x, const int o, const std::string l, const double c) : UnsteadySolver<4>(s, x, o, l), cfl(c) { }
template<> TVDRKSolver<4>::~TVDRKSolver() { }
template<> StatusCode TVDRKSolver<4>::solve(const freal T) { tv.n++; tv.u = uvec; tv.order = order; tv.log = logfile; tv.cfl = cfl; tv.T = T; tv.s = space; return 0; }
}
// post-processing
static struct { int surf, point, vtu, vol, entropy; std::string sname, vname, volname, names; std::vector<int> w, o; double ent, aoa, g; double vol0; std::vector<double> all, vs, vv; Vec u; const void* phy; int srows; bool sthrow; } out;
static int hhead, hrows, hstep[16];
namespace fvens {
template<short nv> Output<nv>::Output(const Spatial<freal,nv>* const s) : space(s), m(s->mesh()) { }
FlowOutput::FlowOutput(const FlowFV_base<freal>* const f, const IdealGasPhysics<freal>* const p, const freal a) : Output<NVARS>(f), space(f), phy(p), angleOfAttack(a), av{0, 0} { out.aoa = a; out.g = p->g; }
freal FlowOutput::compute_entropy_cell(const Vec u) const { out.entropy++; out.u = u; return out.ent; }
StatusCode FlowOutput::postprocess_point(const Vec u, amat::Array2d<freal>& s, amat::Array2d<freal>& v) const { out.point++; s.resize(m->gnpoin(), 4); v.resize(m->gnpoin(), 2); for (int i = 0; i < m->gnpoin(); i++) { for (int j = 0; j < 4; j++) s(i,j) = 1+4*i+j; for (int j = 0; j < 2; j++) v(i,j) = 1000+2*i+j; } s(0,0) = pm_vec(u)[0]; out.srows = m->gnpoin(); return 0; }
StatusCode FlowOutput::postprocess_cell(const Vec, amat::Array2d<freal>&, amat::Array2d<freal>&) const { return 0; }
void FlowOutput::exportVolumeData(const MVector<freal>& u, const std::string f) const { out.vol++; out.volname = f; out.vol0 = u(m->gnelem()-1, 3); out.all.clear(); for (int i = 0; i < m->gnelem(); i++) for (int j = 0; j < 4; j++) out.all.push_back(u(i,j)); }
void FlowOutput::exportSurfaceData(const Vec u, const std::vector<int> w, const std::vector<int> o, const std::string b) const { out.surf++; out.u = u; out.w = w; out.o = o; out.sname = b; if (out.sthrow) throw std::runtime_error("cannot write"); }
void writeScalarsVectorToVtu_PointData(std::string f, const UMesh<freal,NDIM>& m, const amat::Array2d<double>& x, std::string n[], const amat::Array2d<double>& y, std::string v) { out.vtu++; out.vname = f; out.vol0 = x(0,0); out.vs.clear(); out.vv.clear(); for (int i = 0; i < m.gnpoin(); i++) { for (int j = 0; j < 4; j++) out.vs.push_back(x(i,j)); for (int j = 0; j < 2; j++) out.vv.push_back(y(i,j)); } out.names = n[0]+","+n[1]+","+n[2]+","+n[3]+","+v; }
void writeConvergenceHistoryHeader(std::ostream&) { hhead++; }
void writeStepToConvergenceHistory(const SteadyStepMonitor s, std::ostream&) { hstep[hrows++] = s.step; }
static std::string mpath; static const Gen* mgen;
}
static UMesh<freal,2> build(const Gen& g) { UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); m.globalElemIndex.resize(m.gnelem()); for (int i = 0; i < m.gnelem(); i++) m.globalElemIndex[i] = i; return m; }
namespace fvens { UMesh<freal,NDIM> constructMesh(const std::string p) { mpath = p; return build(*mgen); } }
static void clear() { nrec = nsolve = kmade = kgone = 0; hhead = hrows = 0; tv.n = 0; out.surf = out.point = out.vtu = out.vol = out.entropy = 0; out.sthrow = false; out.ent = 0; pm_options_clear(); se_files_clear(); for (int& o : outcome) o = OK_; }
static FlowParserOptions& options(bool sym) { static char mem[sizeof(FlowParserOptions)]; FlowParserOptions& o = *new (mem) FlowParserOptions(); Gas s = sym_gas(); o.gamma = s.g; o.Minf = s.Minf; o.Tinf = s.Tinf; o.Reinf = s.Reinf; o.Pr = s.Pr; o.alpha = se_range("aoa", -1.5, 1.5); o.meshfile = "mesh"; o.vtu_output_file = "o.vtu"; o.logfile = "log"; o.flowtype = "NAVIERSTOKES"; o.invflux = "HLLC"; o.invfluxjac = "ROE"; o.gradientmethod = "GREENGAUSS"; o.limiter = "WENO"; o.limiter_param = 20; o.pseudotimetype = "EXPLICIT"; o.nl_update_scheme = "FULL"; o.min_nl_update = 0.2; o.vol_output_reqd = "NO"; o.volnameprefix = "vol"; o.surfnameprefix = "surf"; o.sim_type = "STEADY"; o.time_integrator = "NONE"; o.order2 = true; o.viscsim = true; o.useconstvisc = false; o.usestarter = 0; o.lognres = false; o.write_final_lin_sys = false;
  o.initcfl = sym ? se_pos("cfl0") : 1; o.endcfl = sym ? se_pos("cfl1") : 2; o.tolerance = sym ? se_pos("tol") : 3; o.maxiter = sym ? (int)se_int("maxit", 1, 1000) : 4; o.firstinitcfl = sym ? se_pos("icfl0") : 5; o.firstendcfl = sym ? se_pos("icfl1") : 6; o.firsttolerance = sym ? se_pos("itol") : 7; o.firstmaxiter = sym ? (int)se_int("imaxit", 1, 1000) : 8; o.rampstart = o.rampend = o.firstrampstart = o.firstrampend = 0; o.num_out_walls = o.num_out_others = 0; o.bcconf.clear(); o.bcconf.push_back(bc_conf(1, FARFIELD_BC)); o.bcconf.push_back(bc_conf(2, SLIP_WALL_BC)); ref_o = &o; return o; }
static void grid(Gen& g, bool sym) { g.make((int)se_param("nx", 2), (int)se_param("ny", 1), se_param("split", 1), (int)se_param("pat", 0), sym, true); g.nbtag = 1; g.ndtag = 0; for (int i = 0; i < g.nb; i++) g.btag[i][0] = 1+i%2; mgen = &g; }
static long pick(const char* n, long k) { return se_choose(n, 0, k-1); }
static Vec vec(const UMesh<freal,2>& m, const FlowParserOptions& o) { Vec u; int e = initializeSystemVector(o, m, &u); se_assert(e == 0, "no error"); return u; }
// the initial state is the free stream, in every cell and in every ghost cell
extern "C" void harness_initial() { clear(); Gen g; grid(g, false); FlowParserOptions& o = options(false); pm_begin_world(1); UMesh<freal,2> gm = build(g); ref_m = &gm; const int nr = (int)se_param("ranks", 1); const double pinf = 1/(o.gamma*o.Minf*o.Minf);
  auto one = [&](const UMesh<freal,2>& m) { Vec u = vec(m, o); const double* U = pm_vec(u); for (int c = 0; c < m.gnelem()+m.gnConnFace(); c++) { se_assert_eq(U[4*c], 1, "initial density"); se_assert_eq(U[4*c+1], __builtin_cos(o.alpha), "initial momentum"); se_assert_eq(U[4*c+2], __builtin_sin(o.alpha), "initial momentum"); se_assert_eq(U[4*c+3], pinf/(o.gamma-1)+0.5, "initial energy"); } se_observe(U[3], "E"); VecDestroy(&u); };
  if (nr == 1) { one(gm); return; } std::vector<int> own(g.nc); for (int i = 0; i < g.nc; i++) own[i] = i*nr/g.nc; bool ok = pm_run_ranks(nr, [&](int) { Part p(gm); p.elemdist = own; UMesh<freal,2> m = p.restrictMeshToPartitions(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); one(m); }); se_assert(ok, "all processes finish"); }
// mesh of the case: the file named in the settings plus a suffix, periodic pairs only for periodic boundary conditions
extern "C" void harness_mesh() { clear(); Gen g; g.make(2, 2, 0, 0, false, false); g.nbtag = 1; g.ndtag = 0; for (int i = 0; i < g.nb; i++) { int a = g.be[i][0], b = g.be[i][1]; double x = 0.5*(g.X[a]+g.X[b]), y = 0.5*(g.Y[a]+g.Y[b]); (void)y; g.btag[i][0] = x < 0.25 || x > 1.75 ? 3 : 1; } mgen = &g; FlowParserOptions& o = options(false); const bool per = pick("periodic", 2); if (per) { FlowBCConfig b; b.bc_tag = 3; b.bc_type = PERIODIC_BC; b.bc_opts.push_back(3); b.bc_opts.push_back(0); o.bcconf.push_back(b); }
  UMesh<freal,2> m = constructMeshFlow(o, pick("suffix", 2) ? "-1.msh" : ""); se_assert(mpath == "mesh" || mpath == "mesh-1.msh", "mesh file"); se_assert((mpath == "mesh-1.msh") == (bool)se_choose("suffix", 0, 1), "suffix"); se_assert_ieq(m.gnelem(), g.nc, "cells"); auto at = [&](int f, int d) { return 0.5*(m.gcoords(m.gintfac(f,2),d)+m.gcoords(m.gintfac(f,3),d)); };
  for (int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) { const double x = at(f,0), y = at(f,1); int other = -1; if (x < 0.25 || x > 1.75) for (int h = m.gPhyBFaceStart(); h < m.gPhyBFaceEnd(); h++) { const double dx = at(h,0)-x, dy = at(h,1)-y; if (dx*dx > 3 && dy*dy < 0.01) other = h; }
    if (per && other >= 0) se_assert_ieq(m.gintfac(f,1), m.gintfac(other,0), "beyond a periodic face lies the cell of its pair"); else se_assert(m.gintfac(f,1) >= m.gnelem(), "beyond any other boundary face lies a ghost"); } se_observe(1, "one"); }
static void conf(const SolveRec& r, const FlowParserOptions& o, bool first) { se_assert_eq(r.conf.cflinit, first ? o.firstinitcfl : o.initcfl, "initial CFL number"); se_assert_eq(r.conf.cflfin, first ? o.firstendcfl : o.endcfl, "final CFL number"); se_assert_eq(r.conf.tol, first ? o.firsttolerance : o.tolerance, "tolerance"); se_assert_ieq(r.conf.maxiter, first ? o.firstmaxiter : o.maxiter, "iterations"); se_assert(r.conf.lognres == o.lognres, "history"); se_assert(r.conf.write_final_lin_sys == (!first && o.write_final_lin_sys), "linear system written by the main solve only"); if (!first) se_assert(r.conf.logfile == o.logfile, "log file"); }
extern "C" void harness_steady() { clear(); Gen g; grid(g, false); FlowParserOptions& o = options(true); UMesh<freal,2> m = build(g); ref_m = &m; pm_begin_world(1); const bool st = pick("starter", 2), im = pick("implicit", 2), mf = pick("mf", 2), cv = pick("cv", 2), o2 = pick("order2", 2); o.usestarter = st; if (im) o.pseudotimetype = "IMPLICIT"; o.useconstvisc = cv; if (!o2) { o.order2 = false; o.gradientmethod = "NONE"; } const long nl = im ? pick("nl", 2) : 0; if (nl) { o.nl_update_scheme = "ROBUST_FLOW"; o.min_nl_update = se_range("minr", 0.01, 1); } o.write_final_lin_sys = pick("wls", 2); if (mf) pm_option_real("-matrix_free_jacobian", 1); const int so = st ? (int)pick("startout", 2) : 0, mo = (int)pick("mainout", 4), hist = (int)pick("hist", 2); o.lognres = hist; int k = 0; if (st) outcome[k++] = so ? TOL : OK_; outcome[k] = mo;
  Vec u = vec(m, o); const double u0 = pm_vec(u)[0]; SteadyFlowCase c(o); se_assert(c.mf_flg == mf, "matrix-free option"); const FlowFV_base<freal>* prob = createFlowSpatial(o, m); int e = 0; bool tol = false, other = false; try { e = c.execute(prob, hist, u); } catch (Tolerance_error&) { tol = true; } catch (std::exception&) { other = true; }
  se_assert(!other, "only a tolerance error leaves a steady case"); se_assert(tol == (mo != OK_), "a case that has not converged is reported"); se_assert(e == 0, "no error"); se_assert_ieq(nrec, st ? 2 : 1, "number of solvers"); se_assert_ieq(nsolve, st ? 2 : 1, "number of solves"); if (nrec != (st ? 2 : 1) || nsolve != nrec) return;
  const FlowPhysicsConfig pc = extract_spatial_physics_config(o); const FlowNumericsConfig n1 = num_conf("HLLC", "ROE", "NONE", "NONE", false); const void* v1 = cv ? vtof<false,true>(m, pc, n1) : vtof<false,false>(m, pc, n1); ZeroGradients<freal,4> zg(&m, nullptr, nullptr); 
  for (int i = 0; i < nrec; i++) { const SolveRec& r = rec[i]; const bool first = st && i == 0; se_assert_ieq(r.kind, im, "explicit or implicit"); conf(r, o, first); se_assert(r.m == &m, "mesh"); se_assert_eq(r.gamma, o.gamma, "gas"); se_assert_eq(r.Minf, o.Minf, "gas"); se_assert_eq(r.Tinf, o.Tinf, "gas"); se_assert_eq(r.aoa, o.alpha, "angle of attack"); if (first) { se_assert(r.vt == v1, "the starter is of first order"); se_assert(r.gvt == vt(&zg), "the starter has no gradients"); } else se_assert(r.space == prob, "the main solve uses the given discretisation"); if (im) { se_assert(r.M != nullptr, "matrix of the linear solver"); se_assert((r.A == r.M) != mf, "operator of the linear solver"); se_assert(r.nlfull == !nl, "update scheme"); if (nl) se_assert_eq(r.nlmin, o.min_nl_update, "smallest factor"); } }
  se_assert_eq(rec[0].u0, u0, "the first solve starts from the given state"); if (st) se_assert_eq(rec[1].u0, 2*u0+1, "the main solve starts from the result of the starter"); se_assert_eq(pm_vec(u)[0], st ? 2*(2*u0+1)+2 : 2*u0+1, "the result of the main solve is returned");
  const int steps = hist && mo == OK_ ? rec[nrec-1].steps : 0; se_assert_ieq(hrows, steps, "rows of the history file"); se_assert_ieq(hhead, steps ? 1 : 0, "header of the history file"); for (int i = 0; i < hrows && i < steps; i++) se_assert_ieq(hstep[i], 10*nsolve+i, "row of the history file"); if (steps) { se_assert(se_file("log-residual_history.log", false) != nullptr, "history file"); se_assert(se_file("log-prec-timing.log", false) != nullptr, "timing file"); } else se_assert_ieq(se_nfiles, 0, "no files"); if (mo == OK_) se_assert_ieq(kmade, kgone, "linear solvers are released"); se_observe(u0, "u0"); VecDestroy(&u); }
struct TestUnsteady : public UnsteadyFlowCase { using UnsteadyFlowCase::UnsteadyFlowCase; using UnsteadyFlowCase::execute; int execute(const Spatial<freal,NVARS>* const p, const bool, Vec u) const { return UnsteadyFlowCase::execute(p, u); } int execute_starter(const Spatial<freal,NVARS>* const, Vec) const { return 0; } TimingData execute_main(const Spatial<freal,NVARS>* const, Vec) const { return TimingData(); } };
extern "C" void harness_unsteady() { clear(); Gen g; grid(g, false); FlowParserOptions& o = options(false); UMesh<freal,2> m = build(g); ref_m = &m; pm_begin_world(1); const bool rk = pick("tvdrk", 2); o.sim_type = "UNSTEADY"; o.time_integrator = rk ? "TVDRK" : "BDF"; o.time_order = (int)se_int("order", 1, 3); o.phy_cfl = se_pos("pcfl"); o.final_time = se_pos("final"); Vec u = vec(m, o); TestUnsteady c(o); bool threw = false; int e = 0; try { e = c.run(m, u); } catch (...) { threw = true; } se_assert(threw == !rk, "unknown integrators are refused"); if (!rk) { se_assert_ieq(tv.n, 0, "nothing solved"); return; }
  se_assert(e == 0, "no error"); se_assert_ieq(tv.n, 1, "one solve"); se_assert(tv.u == u, "solution vector"); se_assert_ieq(tv.order, o.time_order, "order in time"); se_assert(tv.log == o.logfile, "log file"); se_assert_eq(tv.cfl, o.phy_cfl, "CFL number"); se_assert_eq(tv.T, o.final_time, "final time"); se_observe(tv.T, "T"); VecDestroy(&u); }
struct TestCase : public FlowCase { int mode; mutable int n; mutable bool h; TestCase(const FlowParserOptions& o, int k) : FlowCase(o), mode(k), n(0), h(false) { } int execute(const Spatial<freal,NVARS>* const, const bool hist, Vec u) const { n++; h = hist; double* U = pm_vec(u); for (int i = 0; i < ref_m->gnelem(); i++) { double x[4] = {se_pos(lab("a%", i)), se_real(lab("vx%", i)), se_real(lab("vy%", i)), se_pos(lab("c%", i))}; cons(x, ref_o->gamma, U+4*i); } if (mode == 1) throw Tolerance_error("not converged"); if (mode == 3) throw Numerical_error("diverged"); return mode == 2 ? 5 : 0; } int execute_starter(const Spatial<freal,NVARS>* const, Vec) const { return 0; } TimingData execute_main(const Spatial<freal,NVARS>* const, Vec) const { return TimingData(); } };
extern "C" void harness_run_output() { clear(); Gen g; grid(g, false); FlowParserOptions& o = options(false); UMesh<freal,2> m = build(g); ref_m = &m; pm_begin_world(1); const long walls = se_param("walls", -1) >= 0 ? se_param("walls", 0) : pick("walls", 3); for (int i = 0; i < walls; i++) o.lwalls.push_back(2-i); if (pick("others", 2)) o.lothers.push_back(1); const bool sf = pick("surf", 2), vf = pick("vtu", 2), vol = pick("vol", 2); const int mode = (int)pick("mode", 4); o.lognres = pick("hist", 2); if (vol) o.vol_output_reqd = "YES"; out.ent = se_real("entropy"); out.sthrow = pick("badfile", 2);
  Vec u = vec(m, o); TestCase c(o, mode); FlowSolutionFunctionals f; bool threw = false; try { f = c.run_output(sf, vf, m, u); } catch (std::exception&) { threw = true; } se_assert_ieq(c.n, 1, "one solve"); se_assert(c.h == o.lognres, "history"); se_assert(threw == (mode >= 2), "a failed solve is an error, one that has not converged is not"); if (threw) return;
  const double* U = pm_vec(u); se_assert_ieq(out.surf, sf, "surface files"); if (sf) { se_assert(out.sname == o.surfnameprefix && out.w == o.lwalls && out.o == o.lothers && out.u == u, "surface files"); } se_assert_ieq(out.vtu, vf, "solution file"); if (vf) { se_assert(out.vname == o.vtu_output_file, "name of the solution file"); se_assert(out.names == "density,mach-number,pressure,temperature,velocity", "names in the solution file"); for (int i = 0; i < m.gnpoin(); i++) { for (int j = 0; j < 4; j++) se_assert_eq(out.vs[4*i+j], i+j ? 1+4*i+j : U[0], "scalars in the solution file"); for (int j = 0; j < 2; j++) se_assert_eq(out.vv[2*i+j], 1000+2*i+j, "velocity in the solution file"); } } se_assert_ieq(out.vol, vol, "volume file"); if (vol) { se_assert(out.volname == o.volnameprefix, "name of the volume file"); for (int i = 0; i < 4*m.gnelem(); i++) se_assert_eq(out.all[i], U[i], "state in the volume file"); } se_assert_eq(out.aoa, o.alpha, "angle of attack"); se_assert_eq(out.g, o.gamma, "gas");
  se_assert_eq(f.entropy, out.ent, "entropy"); se_assert_eq(f.meshSizeParameter*f.meshSizeParameter*m.gnelem(), 1, "mesh size"); if (walls) { const FlowFV_base<freal>* p = createFlowSpatial(o, m); std::vector<GradBlock_t<freal,NDIM,NVARS>> gr(m.gnelem()); p->getGradients(u, &gr[0]); int nf = 0; for (int i = m.gPhyBFaceStart(); i < m.gPhyBFaceEnd(); i++) if (m.gbtags(i,0) == o.lwalls[0]) nf++; MVector<freal> w(nf, 4); ConstVecHandler<freal> uh(u); amat::Array2dView<freal> ua(uh.getArray(), m.gnelem(), 4); std::tuple<freal,freal,freal> t = p->computeSurfaceData(ua, &gr[0], o.lwalls[0], w); se_assert_eq(f.CL, std::get<0>(t), "lift"); se_assert_eq(f.CDp, std::get<1>(t), "pressure drag"); se_assert_eq(f.CDsf, std::get<2>(t), "friction drag"); delete p; } else { se_assert_eq(f.CL, 0, "no wall, no lift"); se_assert_eq(f.CDp, 0, "no wall, no drag"); se_assert_eq(f.CDsf, 0, "no wall, no drag"); } se_observe(f.CL, "CL"); VecDestroy(&u); }
