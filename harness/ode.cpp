// P22 (linalg/alinalg.cpp), P23, P24, P31 (ode/aodesolver.cpp, ode/nonlinearrelaxation.cpp): matrix-free product, pseudo-time and time integrators
// over any spatial discretisation: its residual, time step and Jacobian are uninterpreted functions of the states of a cell and its face neighbours.
#include "flowfix.hpp"
#include <petscksp.h>
#define private public
#define protected public
#include "ode/aodesolver.hpp"
#include "ode/nonlinearrelaxation.hpp"
#undef private
#undef protected
#include "utilities/aerrorhandling.hpp"
#include "utilities/mpiutils.hpp"
#include <sys/time.h>
#include <ctime>
PmMat* pm_mat(void*); void* pm_make_mat(int nb, int bs, bool world);
// what aodesolver.cpp and the linear solver need from elsewhere
namespace fvens { void writeConvergenceHistoryHeader(std::ostream&) {} void writeStepToConvergenceHistory(const SteadyStepMonitor, std::ostream&) {} std::vector<int> parseOptionalPetscCmd_intArray(const std::string, const int) { return std::vector<int>(); } }
static Mat ksp_A, ksp_M; static void (*ksp_hook)(Vec b, Vec x);
extern "C" {
clock_t clock() { return 0; }
int gettimeofday(struct timeval* t, void*) { t->tv_sec = 0; t->tv_usec = 0; return 0; }
PetscErrorCode KSPGetOperators(KSP, Mat* A, Mat* M) { if (A) *A = ksp_A; if (M) *M = ksp_M; return PETSC_SUCCESS; }
PetscErrorCode KSPSolve(KSP, Vec b, Vec x) { ksp_hook(b, x); return PETSC_SUCCESS; }
PetscErrorCode KSPGetIterationNumber(KSP, PetscInt* n) { *n = 1; return PETSC_SUCCESS; }
PetscErrorCode KSPGetPC(KSP, PC* p) { *p = nullptr; return PETSC_SUCCESS; }
PetscErrorCode KSPSetUp(KSP) { return PETSC_SUCCESS; }
PetscErrorCode PCSetUp(PC) { return PETSC_SUCCESS; }
PetscErrorCode PCGAMGSetReuseInterpolation(PC, PetscBool) { return PETSC_SUCCESS; }
PetscErrorCode PCBJacobiGetSubKSP(PC, PetscInt*, PetscInt*, KSP**) { return PETSC_SUCCESS; }
PetscErrorCode PCASMGetSubKSP(PC, PetscInt*, PetscInt*, KSP**) { return PETSC_SUCCESS; }
PetscErrorCode PCMGGetLevels(PC, PetscInt* n) { *n = 0; return PETSC_SUCCESS; }
PetscErrorCode PCMGGetSmoother(PC, PetscInt, KSP*) { return PETSC_SUCCESS; }
PetscErrorCode PCMGGetCoarseSolve(PC, KSP*) { return PETSC_SUCCESS; }
PetscErrorCode PCKSPGetKSP(PC, KSP*) { return PETSC_SUCCESS; }
PetscErrorCode PetscViewerBinaryOpen(MPI_Comm, const char*, PetscFileMode, PetscViewer* v) { *v = nullptr; return PETSC_SUCCESS; }
PetscErrorCode PetscViewerDestroy(PetscViewer*) { return PETSC_SUCCESS; }
}
static double hashc(int a, int b, int c, int d) { return ((7*a+3*b+5*c*c+11*d+2*a*c+a*b*d)%17-8)*0.25; }
template<int nv> struct SSpace : Spatial<freal,nv> {
  int mode, tmode; mutable int calls = 0;   // mode 0: any residual, 1: affine in the state; tmode 0: any positive time step, 1: fixed ones
  SSpace(const UMesh<freal,2>* m, int md, int tm = 0) : Spatial<freal,nv>(m), mode(md), tmode(tm) {}
  StatusCode compute_residual(const Vec u, Vec r, const bool ts, Vec dt) const {
    const UMesh<freal,2>* m = this->mesh(); const int ne = m->gnelem(); auto gi = m->getConnectivityGlobalIndices(); const double* U = pm_vec(u); double* R = pm_vec(r); calls++;
    for (int c = 0; c < ne; c++) { const int G = m->gglobalElemIndex(c); double x[2*nv+2]; for (int k = 0; k < nv; k++) x[k] = U[c*nv+k];
      for (int k = 0; k < nv; k++) { x[nv] = G; R[c*nv+k] += mode == 0 ? se_uf(lab("R%", k), nv+1, x) : 0; if (mode == 1) { R[c*nv+k] += nv == 1 ? se_real(lab("b%", G)) : hashc(k, 1, G, G); for (int j = 0; j < nv; j++) R[c*nv+k] += (nv == 1 ? se_real(lab("A%_%", G, G)) : hashc(k, j, G, G))*x[j]; } }
      for (int q = 0; q < m->gnfael(c); q++) { int n = m->gesuel(c,q); if (n >= ne+m->gnConnFace()) continue; const int H = n < ne ? m->gglobalElemIndex(n) : gi[n-ne]; double y[2*nv+2]; for (int k = 0; k < nv; k++) { y[k] = x[k]; y[nv+k] = U[n*nv+k]; } y[2*nv] = G; y[2*nv+1] = H;
        for (int k = 0; k < nv; k++) if (mode == 0) R[c*nv+k] += se_uf(lab("N%", k), 2*nv+2, y); else for (int j = 0; j < nv; j++) R[c*nv+k] += (nv == 1 ? se_real(lab("A%_%", G, H)) : hashc(k, j, G, H))*y[nv+j]; }
      if (ts) { double t = tmode ? 0 : se_uf("T", nv+1, x); pm_vec(dt)[c] = tmode ? 0.5+0.25*((G*3)%5) : 0.5+t*t; } }
    return 0; }
  void compute_local_jacobian_interior(const fint f, const freal* a, const freal* b, Eigen::Matrix<freal,nv,nv,Eigen::RowMajor>& L, Eigen::Matrix<freal,nv,nv,Eigen::RowMajor>& U) const { double x[2*nv+1]; for (int k = 0; k < nv; k++) { x[k] = a[k]; x[nv+k] = b[k]; } x[2*nv] = f; for (int i = 0; i < nv*nv; i++) { L.data()[i] = se_uf(lab("L%", i), 2*nv+1, x); U.data()[i] = se_uf(lab("U%", i), 2*nv+1, x); } }
  void compute_local_jacobian_boundary(const fint f, const freal* a, Eigen::Matrix<freal,nv,nv,Eigen::RowMajor>& L) const { double x[nv+1]; for (int k = 0; k < nv; k++) x[k] = a[k]; x[nv] = f; for (int i = 0; i < nv*nv; i++) L.data()[i] = se_uf(lab("B%", i), nv+1, x); }
  void getGradients(const Vec, GradBlock_t<freal,NDIM,nv>* const) const {}
};
static void grid(Gen& g) { long nx = se_param("nx", 2), ny = se_param("ny", 1), ns = 1; for (int i = 0; i < nx*ny; i++) ns *= 3; long sc = se_choose("split", 0, ns-1), pat = se_choose("pat", 0, se_param("npat", 1)); g.make(nx, ny, sc, pat, se_param("sym", 0), true); g.nbtag = 1; g.ndtag = 0; for (int i = 0; i < g.nb; i++) g.btag[i][0] = 1; }
static UMesh<freal,2> finish(const Gen& g) { UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); m.globalElemIndex.resize(m.gnelem()); for (int i = 0; i < m.gnelem(); i++) m.globalElemIndex[i] = i; return m; }
static Vec state(const UMesh<freal,2>& m, int nv, const char* nm, bool ghost) { Vec v; if (ghost) createGhostedSystemVector(&m, nv, &v); else createSystemVector(&m, nv, &v); for (int c = 0; c < m.gnelem(); c++) for (int k = 0; k < nv; k++) pm_vec(v)[c*nv+k] = se_real(lab(nm, m.gglobalElemIndex(c)*nv+k)); if (ghost) { VecGhostUpdateBegin(v, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v, INSERT_VALUES, SCATTER_FORWARD); } return v; }
// run a program on one process and on several; each gives the values of its cells
template<class P> static void serial_and_parallel(Gen& g, P prog, const char* label) {
  pm_begin_world(1); UMesh<freal,2> gm = finish(g); const int ne = g.nc, nr = (int)se_param("ranks", 1); static double ref[4*24], got[4*24]; int seen[24]; prog(gm, ref, true); if (nr == 1 || ne < nr) return; for (int c = 0; c < ne; c++) seen[c] = 0;
  bool ok = pm_run_ranks(nr, [&](int) { Part p(gm); p.elemdist.resize(ne); for (int c = 0; c < ne; c++) p.elemdist[c] = (c*nr)/ne; UMesh<freal,2> m = p.restrictMeshToPartitions(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); static double loc[4*24]; prog(m, loc, false); const int nv = (int)se_param("nv", 4); for (int c = 0; c < m.gnelem(); c++) { int G = m.gglobalElemIndex(c); seen[G] = 1; for (int k = 0; k < nv; k++) got[G*nv+k] = loc[c*nv+k]; } });
  se_assert(ok, "all processes finish"); const int nv = (int)se_param("nv", 4); for (int c = 0; c < ne; c++) { se_assert_ieq(seen[c], 1, "each cell has a value"); for (int k = 0; k < nv; k++) if (seen[c]) se_assert_eq(got[c*nv+k], ref[c*nv+k], label); }
}
// ---- P22
template<int nv> static void matfree() {
  Gen g; grid(g); const int mode = (int)se_param("mode", 0); const bool zero = se_param("zero", 0), opt = se_param("opt", 0); pm_options_clear(); double eps = 1e-7; if (opt) { eps = se_pos("eps"); pm_option_real("-matrix_free_difference_step", eps); }
  serial_and_parallel(g, [&](const UMesh<freal,2>& m, double* out, bool check) {
    const int ne = m.gnelem(); SSpace<nv> sp(&m, mode); Vec u = state(m, nv, "u%", true), x = state(m, nv, "x%", se_param("xghost", 0)), dt = state(m, 1, "mass%", false), r, y = state(m, nv, "junk%", false); if (zero) for (int i = 0; i < ne*nv; i++) pm_vec(x)[i] = 0; createGhostedSystemVector(&m, nv, &r); sp.compute_residual(u, r, false, NULL);
    Mat A; int e = create_matrixfree_jacobian<nv>(&sp, &A); se_assert(e == 0, "no error"); se_assert(isMatrixFree(A), "the operator is matrix-free"); MatrixFreeSpatialJacobian<nv>* mf = nullptr; MatShellGetContext(A, (void*)&mf); mf->set_state(u, r, dt);
    e = ((StatusCode (*)(Mat, Vec, Vec))pm_mat(A)->ctxop)(A, x, y); se_assert(e == 0, "no error");
    for (int i = 0; i < ne*nv; i++) out[i] = pm_vec(y)[i]; if (!check) return;
    for (int c = 0; c < ne; c++) for (int k = 0; k < nv; k++) { se_assert_eq(pm_vec(u)[c*nv+k], se_real(lab("u%", c*nv+k)), "state unchanged"); se_assert_eq(pm_vec(x)[c*nv+k], zero ? 0 : se_real(lab("x%", c*nv+k)), "vector unchanged"); }
    Vec r2, w; createGhostedSystemVector(&m, nv, &r2); createGhostedSystemVector(&m, nv, &w); sp.compute_residual(u, r2, false, NULL); for (int i = 0; i < ne*nv; i++) se_assert_eq(pm_vec(r)[i], pm_vec(r2)[i], "residual vector unchanged");
    for (int c = 0; c < ne; c++) se_assert_eq(pm_vec(dt)[c], se_real(lab("mass%", c)), "mass term unchanged");
    double n2 = 0; for (int i = 0; i < ne*nv; i++) n2 += pm_vec(x)[i]*pm_vec(x)[i];
    if (n2 == 0) { for (int i = 0; i < ne*nv; i++) se_assert_eq(out[i], 0, "product with the zero vector"); se_observe(out[0], "y0"); return; }
    if (mode == 1) for (int c = 0; c < ne; c++) for (int k = 0; k < nv; k++) { Vec o, h; createGhostedSystemVector(&m, nv, &o); createGhostedSystemVector(&m, nv, &h); sp.compute_residual(x, o, false, NULL); Vec z; createGhostedSystemVector(&m, nv, &z); sp.compute_residual(z, h, false, NULL); se_assert_eq(out[c*nv+k], pm_vec(dt)[c]*pm_vec(x)[c*nv+k]-(pm_vec(o)[c*nv+k]-pm_vec(h)[c*nv+k]), "mass term plus Jacobian times the vector"); }
    else { double s = eps/std::sqrt(n2); for (int i = 0; i < ne*nv; i++) { pm_vec(w)[i] = pm_vec(u)[i]+s*pm_vec(x)[i]; pm_vec(r2)[i] = 0; } sp.compute_residual(w, r2, false, NULL); for (int c = 0; c < ne; c++) for (int k = 0; k < nv; k++) se_assert_eq(out[c*nv+k]*s, pm_vec(dt)[c]*pm_vec(x)[c*nv+k]*s+(pm_vec(r)[c*nv+k]-pm_vec(r2)[c*nv+k]), "mass term plus difference of the residuals"); }
    se_observe(out[0], "y0");
  }, "same product on several processes");
}
extern "C" void harness_matfree() { if (se_param("nv", 4) == 4) matfree<4>(); else matfree<1>(); }
// ---- P23
struct SS : SteadySolver<4> { SS(const Spatial<freal,4>* s, const SteadySolverConfig& c) : SteadySolver<4>(s, c) {} StatusCode solve(Vec) { return 0; } };
extern "C" void harness_cfl() {
  Gen g; g.make(1, 1, 0, 0, false, true); g.nbtag = 1; g.ndtag = 0; for (int i = 0; i < g.nb; i++) g.btag[i][0] = 1; UMesh<freal,2> m = finish(g); SSpace<4> sp(&m, 0); SteadySolverConfig cf; SS s(&sp, cf);
  const double lo = se_pos("cflmin"), hi = lo+std::fabs(se_real("range")), t = se_range("t", 0, 1), prev = se_choose("first", 0, 1) ? 0 : lo+t*(hi-lo), q = se_pos("ratio"); const bool fe = se_choose("explicit", 0, 1); const double up = fe ? 0.3 : 0.25, dn = fe ? 0.25 : 0.3;
  const double c = s.expResidualRamp(lo, hi, prev, q, up, dn); se_assert_le(lo, c, "not below the initial CFL"); se_assert_le(c, hi, "not above the final CFL");
  if (prev > 0) { const double x = prev*std::pow(q, q > 1 ? up : dn); if (q > 1) { se_assert_le(prev, c, "does not fall while the residual falls"); } else se_assert_le(c, prev, "does not grow while the residual grows"); if (x > lo && x < hi) se_assert_eq(c, x, "scaled by the power of the residual ratio"); else if (x >= hi) se_assert_eq(c, hi, "clipped at the final CFL"); else se_assert_eq(c, lo, "clipped at the initial CFL"); }
  se_observe(c, "cfl");
}
extern "C" void harness_linramp() {
  Gen g; g.make(1, 1, 0, 0, false, true); g.nbtag = 1; g.ndtag = 0; for (int i = 0; i < g.nb; i++) g.btag[i][0] = 1; UMesh<freal,2> m = finish(g); SSpace<4> sp(&m, 0); SteadySolverConfig cf; SS s(&sp, cf);
  const double lo = se_pos("cflmin"), hi = lo+std::fabs(se_real("range")); se_check_div(0); const int is = (int)se_choose("start", 0, 3), ie = (int)se_choose("end", 0, 5); double p = lo; for (int it = 0; it < 7; it++) { double c = s.linearRamp(lo, hi, is, ie, it); se_assert_le(lo, c, "not below the initial CFL"); se_assert_le(c, hi, "not above the final CFL"); if (it) se_assert_le(p, c, "does not fall"); if (it >= is && it >= ie) se_assert_eq(c, hi, "final CFL after the ramp"); if (it < is || (it == is && is < ie)) se_assert_eq(c, lo, "initial CFL before the ramp"); p = c; }
  se_observe(p, "cfl");
}
extern "C" void harness_relaxation() {
  const double gm = gamma_(), mf = se_pos("minfactor"); se_assume_le(mf, 1); double u[4], x[4] = {se_pos("a"), se_real("vx"), se_real("vy"), se_pos("c")}, du[4] = {se_real("du0"), se_real("du1"), se_real("du2"), se_real("du3")}; cons(x, gm, u);
  IdealGasPhysics<freal> phy(gm, 0.5, 300, 100, 0.7); FlowSimpleUpdate<4> f(phy, mf); FullUpdate<4> full; const double w = f.getLocalRelaxationFactor(du, u); se_assert_le(mf, w, "not below the configured minimum"); se_assert_le(w, 1, "not above one"); se_assert_eq(full.getLocalRelaxationFactor(du, u), 1, "full update");
  const double p = phy.getPressureFromConserved(u), dp = std::fabs(phy.getDeltaPressureFromConserved(u, du)), dr = std::fabs(du[0]);
  if (w > mf) { se_assert_le(dr, (1-mf)*u[0], "density change within the fraction"); se_assert_le(dp, (1-mf)*p, "pressure change within the fraction"); se_assert_lt(dr, u[0], "density stays positive"); }
  { double a = dr/u[0], b = dp/p, d = a > b ? a : b; if (1-d > mf) se_assert_eq(w, 1-d, "one minus the larger relative change"); else se_assert_eq(w, mf, "minimum factor"); }
  se_observe(w, "omega");
}
extern "C" void harness_relaxation_config() { IdealGasPhysics<freal> phy(1.4, 0.5, 300, 100, 0.7); const double mf = se_real("minfactor"); bool thrown = false; try { FlowSimpleUpdate<4> f(phy, mf); } catch (const std::domain_error&) { thrown = true; } se_assert(thrown == !(mf > 0 && mf <= 1), "invalid minimum factors are refused"); se_observe(mf, "mf"); }
// ---- P24
template<int nv> static void oracle_step(const SSpace<nv>& sp, const UMesh<freal,2>& m, const double* u, double* R, double* T) { Vec a, r, t; createGhostedSystemVector(&m, nv, &a); createGhostedSystemVector(&m, nv, &r); createSystemVector(&m, 1, &t); const int n = m.gnelem(); for (int i = 0; i < n*nv; i++) pm_vec(a)[i] = u[i]; sp.compute_residual(a, r, true, t); for (int i = 0; i < n*nv; i++) R[i] = pm_vec(r)[i]; for (int i = 0; i < n; i++) T[i] = pm_vec(t)[i]; }
template<int nv> static void feuler() {
  Gen g; grid(g); const int steps = (int)se_param("steps", 1); const double cfl = se_pos("cfl"), cfin = cfl+std::fabs(se_real("range"));
  serial_and_parallel(g, [&](const UMesh<freal,2>& m, double* out, bool check) {
    const int ne = m.gnelem(); SSpace<nv> sp(&m, 0, (int)se_param("tmode", 0)); Vec u = state(m, nv, "u%", true); SteadySolverConfig cf; cf.lognres = true; cf.write_final_lin_sys = false; cf.cflinit = cfl; cf.cflfin = cfin; cf.rampstart = 0; cf.rampend = 0; cf.tol = -1; cf.maxiter = steps; bool thrown = false; int done = 0;
    { SteadyForwardEulerSolver<nv> s(&sp, u, cf); try { int e = s.solve(u); se_assert(e == 0, "no error"); } catch (const Tolerance_error&) { thrown = true; } done = s.getTimingData().num_timesteps; }
    se_assert_ieq(done, steps, "the requested number of steps"); se_assert(thrown, "reports that the tolerance was not reached"); for (int i = 0; i < ne*nv; i++) out[i] = pm_vec(u)[i]; if (!check) return;
    static double w[96], R[96], T[24]; for (int i = 0; i < ne*nv; i++) w[i] = se_real(lab("u%", i)); for (int s = 0; s < steps; s++) { oracle_step<nv>(sp, m, w, R, T); for (int c = 0; c < ne; c++) for (int k = 0; k < nv; k++) w[c*nv+k] += cfl*T[c]/m.garea(c)*R[c*nv+k]; }
    for (int i = 0; i < ne*nv; i++) se_assert_eq(out[i], w[i], "forward Euler step with the local time step"); se_observe(out[0], "u0");
  }, "same step on several processes");
}
extern "C" void harness_feuler() { if (se_param("nv", 4) == 4) feuler<4>(); else feuler<1>(); }
extern "C" void harness_tvdrk() {
  Gen g; grid(g); const int order = (int)se_param("order", 3), steps = (int)se_param("steps", 1); const double cfl = steps == 1 ? 0.5+std::fabs(se_real("cfl")) : 0.5;
  serial_and_parallel(g, [&](const UMesh<freal,2>& m, double* out, bool check) {
    const int ne = m.gnelem(); const int tm = steps == 1 ? 0 : 1; SSpace<4> sp(&m, 0, tm); Vec u = state(m, 4, "u%", true); { TVDRKSolver<4> s(&sp, u, order, "/dev/null", cfl); int e = s.solve(steps == 1 ? 0.125 : 0.25*(steps-1)+0.125); se_assert(e == 0, "no error"); }
    for (int i = 0; i < ne*4; i++) out[i] = pm_vec(u)[i]; if (!check) return;
    static const double C[3][3][3] = {{{1,0,1}}, {{1,0,1},{0.5,0.5,0.5}}, {{1,0,1},{0.75,0.25,0.25},{0.3333333333333333,0.6666666666666667,0.6666666666666667}}};
    static double w[96], v[96], R[96], T[24]; for (int i = 0; i < ne*4; i++) w[i] = se_real(lab("u%", i)); double dt = 0;
    for (int s = 0; s < steps; s++) { for (int i = 0; i < ne*4; i++) v[i] = w[i]; for (int st = 0; st < order; st++) { oracle_step<4>(sp, m, v, R, T); if (st == 0) { dt = T[0]; for (int c = 1; c < ne; c++) dt = T[c] < dt ? T[c] : dt; } const double* q = C[order-1][st]; for (int c = 0; c < ne; c++) for (int k = 0; k < 4; k++) v[c*4+k] = q[0]*w[c*4+k]+q[1]*v[c*4+k]+q[2]*(dt*cfl/m.garea(c)*R[c*4+k]); } for (int i = 0; i < ne*4; i++) w[i] = v[i]; }
    for (int i = 0; i < ne*4; i++) se_assert_eq(out[i], w[i], "strong-stability-preserving Runge-Kutta step"); se_observe(out[0], "u0");
  }, "same step on several processes");
}
// ---- P31: implicit pseudo-time steps
static const UMesh<freal,2>* kmesh; static int kcall, knv; static bool kcheck, kmf; static double kcfl[4]; static void* kspace; static double kstate[96];
template<int nv> struct AnyRelax : NonlinearUpdate<nv> { freal getLocalRelaxationFactor(const freal du[nv], const freal u[nv]) const { double x[2*nv]; for (int k = 0; k < nv; k++) { x[k] = du[k]; x[nv+k] = u[k]; } return se_uf("omega", 2*nv, x); } };
template<int nv> static void kcheck_solve(Vec b, Vec x) {   // the linear system handed to the solver, and any answer
  const UMesh<freal,2>& m = *kmesh; const SSpace<nv>& sp = *(SSpace<nv>*)kspace; const int ne = m.gnelem(); PmMat* M = pm_mat(ksp_M); const long N = (long)M->gbrows*nv;
  if (kcheck) { double R[96], T[24]; oracle_step<nv>(sp, m, kstate, R, T); Vec a; createGhostedSystemVector(&m, nv, &a); for (int i = 0; i < ne*nv; i++) pm_vec(a)[i] = kstate[i]; Mat J = (Mat)pm_make_mat(M->gbrows, nv, true); sp.assemble_jacobian(a, J);
    for (int i = 0; i < ne*nv; i++) se_assert_eq(pm_vec(b)[i], R[i], "right-hand side is the negative residual");
    for (long i = 0; i < N; i++) for (long j = 0; j < N; j++) { double e = pm_mat(J)->a[i*N+j]; if (i == j) { double V = m.garea((int)(i/nv)); se_assert_eq((M->a[i*N+j]-e)*kcfl[kcall]*T[i/nv], V, "volume over the pseudo-time step on the diagonal"); } else se_assert_eq(M->a[i*N+j], e, "Jacobian of the residual"); } }
  if (kmf) {   // the matrix-free operator handed to the solver acts at the state and with the pseudo-time term of this step
    se_assert(isMatrixFree(ksp_A), "the operator is matrix-free"); Vec z, y; createSystemVector(&m, nv, &z); createSystemVector(&m, nv, &y); double n2 = 0; for (int c = 0; c < ne; c++) for (int k = 0; k < nv; k++) { const double v = se_real(lab("z%", m.gglobalElemIndex(c)*nv+k)); pm_vec(z)[c*nv+k] = v; n2 += v*v; } se_assume(n2 > 0);
    int e = ((StatusCode (*)(Mat, Vec, Vec))pm_mat(ksp_A)->ctxop)(ksp_A, z, y); se_assert(e == 0, "no error");
    if (kcheck) { static double w[96], R[96], Q[96], T[24], T2[24]; const double s = 1e-7/std::sqrt(n2); for (int i = 0; i < ne*nv; i++) w[i] = kstate[i]+s*pm_vec(z)[i]; oracle_step<nv>(sp, m, kstate, R, T); oracle_step<nv>(sp, m, w, Q, T2);
      for (int c = 0; c < ne; c++) for (int k = 0; k < nv; k++) { const int i = c*nv+k; se_assert_eq((pm_vec(y)[i]*s-(R[i]-Q[i]))*kcfl[kcall]*T[c], m.garea(c)*pm_vec(z)[i]*s, "matrix-free operator: pseudo-time term and difference of the residuals at the current state"); } } }
  for (int c = 0; c < ne; c++) for (int k = 0; k < nv; k++) pm_vec(x)[c*nv+k] = se_real(lab("du%_%", kcall, m.gglobalElemIndex(c)*nv+k));
  if (kcheck) { AnyRelax<nv> rel; for (int c = 0; c < ne; c++) { const double w = rel.getLocalRelaxationFactor(pm_vec(x)+c*nv, kstate+c*nv); for (int k = 0; k < nv; k++) kstate[c*nv+k] += w*pm_vec(x)[c*nv+k]; } }
  kcall++;
}
template<int nv> static void beuler() {
  Gen g; grid(g); const int steps = (int)se_param("steps", 1); const double cfl = se_pos("cfl"), cfin = steps > 1 ? cfl : cfl+std::fabs(se_real("range"));
  serial_and_parallel(g, [&](const UMesh<freal,2>& m, double* out, bool check) {
    const int ne = m.gnelem(); SSpace<nv> sp(&m, 0, (int)se_param("tmode", 0)); Vec u = state(m, nv, "u%", true); SteadySolverConfig cf; cf.lognres = true; cf.write_final_lin_sys = false; cf.cflinit = cfl; cf.cflfin = cfin; cf.rampstart = 0; cf.rampend = 0; cf.tol = -1; cf.maxiter = steps; bool thrown = false; int done = 0; AnyRelax<nv> rel;
    ksp_A = ksp_M = (Mat)pm_make_mat(m.gnelemglobal(), nv, true); for (int i = 0; i < pm_mat(ksp_M)->gbrows*nv; i++) pm_mat(ksp_M)->a[(long)i*pm_mat(ksp_M)->gbrows*nv+i] = 77; kmf = se_param("mf", 0); if (kmf) { pm_options_clear(); int e = create_matrixfree_jacobian<nv>(&sp, &ksp_A); se_assert(e == 0, "no error"); } kmesh = &m; kspace = &sp; kcall = 0; kcheck = check && se_param("system", 1); ksp_hook = kcheck_solve<nv>; for (int i = 0; i < 4; i++) kcfl[i] = cfl; for (int i = 0; i < ne*nv; i++) kstate[i] = pm_vec(u)[i];
    { SteadyBackwardEulerSolver<nv> s(&sp, cf, nullptr, &rel); try { s.solve(u); } catch (const Tolerance_error&) { thrown = true; } done = s.getTimingData().num_timesteps; }
    se_assert_ieq(done, steps, "the requested number of steps"); se_assert_ieq(kcall, steps, "one linear solve per step"); se_assert(thrown, "reports that the tolerance was not reached"); for (int i = 0; i < ne*nv; i++) out[i] = pm_vec(u)[i]; if (!check) return;
    static double w[96]; for (int i = 0; i < ne*nv; i++) w[i] = se_real(lab("u%", i)); for (int s = 0; s < steps; s++) for (int c = 0; c < ne; c++) { double du[nv]; for (int k = 0; k < nv; k++) du[k] = se_real(lab("du%_%", s, c*nv+k)); double o = rel.getLocalRelaxationFactor(du, w+c*nv); for (int k = 0; k < nv; k++) w[c*nv+k] += o*du[k]; }
    for (int i = 0; i < ne*nv; i++) se_assert_eq(out[i], w[i], "relaxed update added to the state"); se_observe(out[0], "u0");
  }, "same step on several processes");
}
extern "C" void harness_beuler() { if (se_param("nv", 4) == 4) beuler<4>(); else beuler<1>(); }
// ---- P24, P31: when the pseudo-time solvers stop, and what they record.  The residual of each step is arbitrary.
template<int nv> struct HSpace : SSpace<nv> {
  HSpace(const UMesh<freal,2>* m) : SSpace<nv>(m, 0, 1) {}
  StatusCode compute_residual(const Vec, Vec r, const bool ts, Vec dt) const { const UMesh<freal,2>* m = this->mesh(); for (int c = 0; c < m->gnelem(); c++) { const int G = m->gglobalElemIndex(c); for (int k = 0; k < nv; k++) pm_vec(r)[c*nv+k] += se_real(lab("h%_%", this->calls, G*nv+k)); if (ts) pm_vec(dt)[c] = 0.5+0.25*((G*3)%5); } this->calls++; return 0; }
};
static double hcfl[8], hratio[8], hlo, hhi; static int hcalls; static const UMesh<freal,2>* hmesh; static void* hspace; static Vec hu;
template<int nv> static void hist_solve(Vec, Vec x) {   // the CFL number of the step, from the matrix
  const UMesh<freal,2>& m = *hmesh; const SSpace<nv>& sp = *(SSpace<nv>*)hspace; const int ne = m.gnelem(); PmMat* M = pm_mat(ksp_M); const long N = (long)M->gbrows*nv; Mat J = (Mat)pm_make_mat(M->gbrows, nv, true); sp.assemble_jacobian(hu, J); double c0 = 0, d0 = 0;
  for (int c = 0; c < ne; c++) for (int k = 0; k < nv; k++) { const long i = (long)m.gglobalElemIndex(c)*nv+k; const double d = (M->a[i*N+i]-pm_mat(J)->a[i*N+i])*(0.5+0.25*((m.gglobalElemIndex(c)*3)%5))/m.garea(c); if (!c && !k) { d0 = d; se_assert_lt(0, d0, "the pseudo-time term is positive"); c0 = 1/d0; } else se_assert_eq(d, d0, "all rows use the same CFL number"); }
  se_assert_le(hlo, c0, "CFL not below the initial one"); se_assert_le(c0, hhi, "CFL not above the final one"); if (hcalls == 0) se_assert_eq(c0, hlo, "the first step uses the initial CFL number"); else if (hcalls > 1) { const double p = hcfl[hcalls-1], q = hratio[hcalls]; if (q > 1) { if (c0 < hhi) se_assert_lt(p, c0, "CFL grows while the residual falls"); else se_assert_eq(c0, hhi, "CFL stays at the final one"); } else se_assert_le(c0, p, "CFL does not grow while the residual grows"); }
  hcfl[hcalls] = c0; hcalls++; for (int i = 0; i < ne*nv; i++) pm_vec(x)[i] = 0;
}
template<int nv, bool impl> static void converge() {
  Gen g; grid(g); const int maxit = (int)se_param("maxit", 3), nr = (int)se_param("ranks", 1); hlo = se_pos("cfl"); hhi = hlo+se_pos("range"); const double tol = se_range("tol", 0, 1); se_assume(tol > 0 && tol < 1); const bool hist = se_choose("hist", 0, 1); pm_begin_world(1); UMesh<freal,2> gm = finish(g); const int ne = g.nc; double n[8]; int N = 0;
  for (int s = 0; s < maxit; s++) { double q = 0; for (int c = 0; c < ne; c++) { const double h = se_real(lab("h%_%", s, c*nv+nv-1)); q += h*h*gm.garea(c); } se_assume(q > 0); n[s] = std::sqrt(q); hratio[s] = s > 1 ? n[s-2]/n[s-1] : 1; }
  while (N < maxit) { N++; if (!(n[N-1]/n[0] > tol)) break; }
  const bool conv = !(n[N-1]/n[0] > tol); hcalls = 0;
  auto prog = [&](const UMesh<freal,2>& m) { hcalls = 0; HSpace<nv> sp(&m); Vec u = state(m, nv, "u%", true); SteadySolverConfig cf; cf.lognres = hist; cf.write_final_lin_sys = false; cf.cflinit = hlo; cf.cflfin = hhi; cf.rampstart = 0; cf.rampend = 0; cf.tol = tol; cf.maxiter = maxit; bool thrown = false, other = false; FullUpdate<nv> rel; TimingData td; int e = 0;
    if (impl) { ksp_A = ksp_M = (Mat)pm_make_mat(m.gnelemglobal(), nv, true); hmesh = &m; hspace = &sp; hu = u; ksp_hook = hist_solve<nv>; SteadyBackwardEulerSolver<nv> s(&sp, cf, nullptr, &rel); try { e = s.solve(u); } catch (const Tolerance_error&) { thrown = true; } catch (const std::exception&) { other = true; } td = s.getTimingData(); }
    else { SteadyForwardEulerSolver<nv> s(&sp, u, cf); try { e = s.solve(u); } catch (const Tolerance_error&) { thrown = true; } catch (const std::exception&) { other = true; } td = s.getTimingData(); }
    se_assert(e == 0 && !other, "no other error"); se_assert_ieq(sp.calls, N, "steps until the relative residual is below the tolerance or the limit is reached"); se_assert_ieq(td.num_timesteps, N, "number of steps reported"); if (impl) se_assert_ieq(hcalls, N, "one linear solve per step"); if (impl) se_assert_ieq(td.total_lin_iters, N, "linear iterations add up");
    if (!(conv && N == maxit)) { se_assert(thrown == !conv, "reports whether the tolerance was reached"); se_assert(td.converged == conv, "records whether the tolerance was reached"); } se_assert_ieq(td.nelem, m.gnelem(), "problem size reported");
    se_assert_ieq((long)td.convhis.size(), hist ? N : 0, "one row of the history per step, if requested");
    if (hist) for (int s = 0; s < N && s < (int)td.convhis.size(); s++) { const SteadyStepMonitor& h = td.convhis[s]; se_assert_ieq(h.step, s+1, "history: step"); se_assert_eq(h.rmsres, n[s]/n[0], "history: relative residual"); se_assert_eq(h.absrmsres, n[s], "history: residual"); if (impl) { se_assert_ieq(h.linits, s+1, "history: linear iterations"); se_assert_eq(h.cfl, hcfl[s], "history: CFL number"); } }
    se_observe(n[N-1], "residual"); };
  if (nr == 1) { prog(gm); return; }
  bool ok = pm_run_ranks(nr, [&](int) { Part p(gm); p.elemdist.resize(ne); for (int c = 0; c < ne; c++) p.elemdist[c] = (c*nr)/ne; UMesh<freal,2> m = p.restrictMeshToPartitions(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); prog(m); }); se_assert(ok, "all processes finish");
}
extern "C" void harness_converge() { const bool im = se_param("implicit", 0); if (se_param("nv", 1) == 1) { if (im) converge<1,true>(); else converge<1,false>(); } else { if (im) converge<4,true>(); else converge<4,false>(); } }
