// P26: post-processing and output files (real spatial/aoutput.cpp and the surface functionals of the flow discretisation).
#include "ioinc/fstream"
#include "flowfix.hpp"
#define private public
#define protected public
#include "spatial/aoutput.hpp"
#include "spatial/diffusion.hpp"
#undef private
#undef protected
// the format conversion program
namespace fvens { static const Gen* cvgen; static int cvreads; static std::string cvname; MeshData readMesh(const std::string f) { cvreads++; cvname = f; return cvgen->data(); } }
#define main convert_main
#include "utilities/convertformat.cpp"
#undef main
static void grid(Gen& g, bool sym) { long nx = se_param("nx", 2), ny = se_param("ny", 1), ns = 1; for (int i = 0; i < nx*ny; i++) ns *= 3; long sc = nx ? se_choose("split", 0, ns-1) : 0, pat = se_choose("pat", 0, se_param("npat", 1)); if (!nx) ny = se_choose("kind", 0, 5); g.make(nx, ny, sc, pat, sym, true); g.nbtag = 1; g.ndtag = 0; for (int i = 0; i < g.nb; i++) g.btag[i][0] = 1+(se_param("tags", 0) ? se_choose(lab("t%", i), 0, 1) : i%3); }
static UMesh<freal,2> finish(const Gen& g) { UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); m.globalElemIndex.resize(m.gnelem()); for (int i = 0; i < m.gnelem(); i++) m.globalElemIndex[i] = i; return m; }
static Gas gas() { Gas s = sym_gas(); s.aoa = se_param("aoa0", 0) ? 0 : se_range("aoa", -1.5, 1.5); return s; }
static Vec state(const UMesh<freal,2>& m, double g) { Vec v; createGhostedSystemVector(&m, 4, &v); for (int c = 0; c < m.gnelem(); c++) { int G = m.gglobalElemIndex(c); double x[4] = {se_pos(lab("a%", G)), se_real(lab("vx%", G)), se_real(lab("vy%", G)), se_pos(lab("c%", G))}; cons(x, g, pm_vec(v)+4*c); } VecGhostUpdateBegin(v, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v, INSERT_VALUES, SCATTER_FORWARD); return v; }
static std::unique_ptr<FlowFV_base<freal>> make(const UMesh<freal,2>& m, const Gas& s, bool visc, bool cv) { FlowPhysicsConfig pc = phys_conf(s, visc, cv); for (int i = 1; i <= 3; i++) pc.bcconf.push_back(bc_conf(i, EXTRAPOLATION_BC)); static const char* const GR[3] = {"NONE", "GREENGAUSS", "LEASTSQUARES"}; FlowNumericsConfig nc = num_conf("HLLC", "HLLC", GR[se_param("grad", 2)], "NONE", true, 1.0);
  if (cv) return std::unique_ptr<FlowFV_base<freal>>(new FlowFV<freal,true,true>(&m, pc, nc)); return std::unique_ptr<FlowFV_base<freal>>(new FlowFV<freal,true,false>(&m, pc, nc)); }
// density, Mach number, pressure, temperature (if asked for) and velocity of a conserved state
static void derived(const double* u, const Gas& s, const double* sc, const double* vel, double wt, bool temp) { // u/wt is the state
  const double r = u[0]/wt, vx = u[1]/u[0], vy = u[2]/u[0], p = (s.g-1)*(u[3]-0.5*(u[1]*u[1]+u[2]*u[2])/u[0])/wt; se_assert_eq(sc[0]*wt, u[0], "density"); se_assert_eq(vel[0]*u[0], u[1], "x-velocity"); se_assert_eq(vel[1]*u[0], u[2], "y-velocity"); se_assert_eq(sc[2], p, "pressure"); se_assert_le(0, sc[1], "Mach number"); se_assert_eq(sc[1]*sc[1]*s.g*p, r*(vx*vx+vy*vy), "Mach number"); if (temp) se_assert_eq(sc[3]*r, s.g*s.Minf*s.Minf*p, "temperature"); }
extern "C" void harness_nodal() {
  Gen g; grid(g, se_param("sym", 0)); Gas s = gas(); UMesh<freal,2> m = finish(g); auto fv = make(m, s, false, true); IdealGasPhysics<freal> phy(s.g, s.Minf, s.Tinf, s.Reinf, s.Pr); FlowOutput out(fv.get(), &phy, s.aoa); Vec u = state(m, s.g); const double* U = pm_vec(u); amat::Array2d<freal> sc, vel; int e = out.postprocess_point(u, sc, vel); se_assert(e == 0, "no error");
  se_assert_ieq(sc.rows(), g.np, "size"); se_assert_ieq(sc.cols(), 4, "size"); se_assert_ieq(vel.rows(), g.np, "size"); se_assert_ieq(vel.cols(), 2, "size");
  for (int p = 0; p < g.np; p++) { double w = 0, a[4] = {0,0,0,0}; for (int c = 0; c < g.nc; c++) for (int k = 0; k < g.cnn[c]; k++) if (g.cn[c][k] == p) { w += g.area(c); for (int v = 0; v < 4; v++) a[v] += g.area(c)*U[4*c+v]; } derived(a, s, &sc(p,0), &vel(p,0), w, true); } se_observe(sc(0,0), "s"); VecDestroy(&u);
}
extern "C" void harness_nodal_constant() {
  Gen g; grid(g, se_param("sym", 1)); Gas s = gas(); UMesh<freal,2> m = finish(g); auto fv = make(m, s, false, true); IdealGasPhysics<freal> phy(s.g, s.Minf, s.Tinf, s.Reinf, s.Pr); FlowOutput out(fv.get(), &phy, s.aoa); Vec u; createGhostedSystemVector(&m, 4, &u); double x[4] = {se_pos("a"), se_real("vx"), se_real("vy"), se_pos("c")}, q[4]; cons(x, s.g, q); for (int c = 0; c < g.nc; c++) for (int v = 0; v < 4; v++) pm_vec(u)[4*c+v] = q[v];
  amat::Array2d<freal> sc, vel; out.postprocess_point(u, sc, vel); const double p0 = pressure(x, s.g); for (int p = 0; p < g.np; p++) { se_assert_eq(sc(p,0), q[0], "constant density"); se_assert_eq(sc(p,2), p0, "constant pressure"); se_assert_eq(sc(p,3), x[3]*x[3]*s.Minf*s.Minf, "constant temperature"); se_assert_eq(vel(p,0), x[1], "constant velocity"); se_assert_eq(vel(p,1), x[2], "constant velocity"); se_assert_eq(sc(p,1)*sc(p,1)*x[3]*x[3], x[1]*x[1]+x[2]*x[2], "constant Mach number"); } se_observe(sc(0,0), "s"); VecDestroy(&u);
}
extern "C" void harness_cellwise() {
  Gen g; grid(g, se_param("sym", 0)); Gas s = gas(); UMesh<freal,2> m = finish(g); auto fv = make(m, s, false, true); IdealGasPhysics<freal> phy(s.g, s.Minf, s.Tinf, s.Reinf, s.Pr); FlowOutput out(fv.get(), &phy, s.aoa); Vec u = state(m, s.g); const double* U = pm_vec(u); amat::Array2d<freal> sc, vel; int e = out.postprocess_cell(u, sc, vel); se_assert(e == 0, "no error");
  se_assert_ieq(sc.rows(), g.nc, "size"); se_assert_ieq(sc.cols(), 3, "size"); for (int c = 0; c < g.nc; c++) derived(U+4*c, s, &sc(c,0), &vel(c,0), 1.0, false); se_observe(sc(0,0), "s"); VecDestroy(&u);
}
static std::vector<int> owners(int n, int nr) { std::vector<int> o(n); int at = 0; for (int r = 0; r < nr; r++) { int k = r == nr-1 ? n-at : (int)se_choose(lab("cells%", r), 1, n-at-(nr-1-r)); for (int i = 0; i < k; i++) o[at++] = r; } return o; } // contiguous numbers on each process, as the mesh reader arranges
// norm of the relative deviation of p/rho^gamma from its free-stream value, over all processes
extern "C" void harness_entropy() {
  Gen g; grid(g, se_param("sym", 0)); Gas s = gas(); pm_begin_world(1); UMesh<freal,2> gm = finish(g); const int nr = (int)se_param("ranks", 1); if (g.nc < nr) return; IdealGasPhysics<freal> phy(s.g, s.Minf, s.Tinf, s.Reinf, s.Pr); double sum = 0; const double si = 1/(s.g*s.Minf*s.Minf); for (int c = 0; c < g.nc; c++) { double x[4] = {se_pos(lab("a%", c)), se_real(lab("vx%", c)), se_real(lab("vy%", c)), se_pos(lab("c%", c))}, d = pressure(x, s.g)/__builtin_pow(x[0]*x[0], s.g); d = (d-si)/si; sum += d*d*g.area(c); }
  auto one = [&](const UMesh<freal,2>& m) { auto fv = make(m, s, false, true); FlowOutput out(fv.get(), &phy, s.aoa); Vec u = state(m, s.g); double e = out.compute_entropy_cell(u); se_assert_le(0, e, "norm"); se_assert_eq(e*e, sum, "norm of the entropy error"); VecDestroy(&u); return e; };
  if (nr == 1) { se_observe(one(gm), "e"); return; } const std::vector<int> own = owners(g.nc, nr);
  bool ok = pm_run_ranks(nr, [&](int) { Part p(gm); p.elemdist = own; UMesh<freal,2> m = p.restrictMeshToPartitions(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); one(m); }); se_assert(ok, "all processes finish");
}
struct Surf { double cp[32], cf[32], x[32][2]; int n; double Cl, Cdp, Cdf, A; };
// definitions, from the generated mesh
static void surf(const Gen& g, const UMesh<freal,2>& m, const Gas& s, bool cv, int tag, const double* U, const double* G, Surf& S, bool faces) { // G: gradients of conserved variables, G[8c+2v+d]
  const double wx = __builtin_cos(s.aoa), wy = __builtin_sin(s.aoa), pinf = 1/(s.g*s.Minf*s.Minf); S.n = 0; S.Cl = S.Cdp = S.Cdf = S.A = 0;
  for (int c = 0; c < g.nc; c++) for (int k = 0; k < g.cnn[c]; k++) { int d, l; if (g.across(c, k, d, l)) continue; int a = g.node(c,k), b = g.node(c,k+1), i = g.bidx(a,b); if (g.btag[i][0] != tag) continue; const double dx = g.X[b]-g.X[a], dy = g.Y[b]-g.Y[a]; // outward n len = (dy,-dx)
    // the length of the face as the mesh stores it (P12), to keep square roots out of the formulas
    double L = 0; for (int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) if ((m.gintfac(f,2) == a && m.gintfac(f,3) == b) || (m.gintfac(f,2) == b && m.gintfac(f,3) == a)) L = m.gfacemetric(f,2);
    const double* u = U+4*c; const double r = u[0], vx = u[1]/r, vy = u[2]/r, p = (s.g-1)*(u[3]-0.5*(u[1]*vx+u[2]*vy)), cs = __builtin_sqrt(s.g*p/r); double D[2][2]; for (int q = 0; q < 2; q++) for (int e = 0; e < 2; e++) D[q][e] = (G[8*c+2*(q+1)+e]-(q ? vy : vx)*G[8*c+e])/r;
    const double mu = mu_law(s, cs, cv), nx = dy/L, ny = -dx/L, fx = 2*D[0][0]*nx+(D[0][1]+D[1][0])*ny, fy = (D[0][1]+D[1][0])*nx+2*D[1][1]*ny, tx = ny, ty = -nx; S.cp[S.n] = 2*(p-pinf); S.cf[S.n] = 2*mu*(fx*tx+fy*ty); S.x[S.n][0] = 0.5*(g.X[a]+g.X[b]); S.x[S.n][1] = 0.5*(g.Y[a]+g.Y[b]); 
    S.A += L; S.Cl += S.cp[S.n]*(-nx*wy+ny*wx)*L; S.Cdp += S.cp[S.n]*(nx*wx+ny*wy)*L; S.Cdf += S.cf[S.n]*(tx*wx+ty*wy)*L; S.n++; } (void)faces; }
extern "C" void harness_surface() {
  Gen g; grid(g, se_param("sym", 0)); Gas s = gas(); const bool cv = se_param("cv", 0); pm_begin_world(1); UMesh<freal,2> gm = finish(g); const int nr = (int)se_param("ranks", 1), tag = 1; if (g.nc < nr) return; static double U[96], G[192]; for (int c = 0; c < g.nc; c++) { double x[4] = {se_pos(lab("a%", c)), se_real(lab("vx%", c)), se_real(lab("vy%", c)), se_pos(lab("c%", c))}; cons(x, s.g, U+4*c); for (int i = 0; i < 8; i++) G[8*c+i] = se_real(lab("g%_%", c, i)); }
  Surf S; surf(g, gm, s, cv, tag, U, G, S, true); if (S.n == 0) return;
  auto one = [&](const UMesh<freal,2>& m, bool single) { auto fv = make(m, s, true, cv); Vec u = state(m, s.g); std::vector<GradBlock_t<freal,NDIM,NVARS>> gr(m.gnelem()); for (int c = 0; c < m.gnelem(); c++) for (int v = 0; v < 4; v++) for (int d = 0; d < 2; d++) gr[c](d,v) = G[8*m.gglobalElemIndex(c)+2*v+d];
    int nf = 0; for (int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) if (m.gbtags(f,0) == tag) nf++; MVector<freal> out(nf, 4); std::tuple<freal,freal,freal> t; { ConstVecHandler<freal> uh(u); amat::Array2dView<freal> ua(uh.getArray(), m.gnelem(), 4); t = fv->computeSurfaceData(ua, &gr[0], tag, out); }
    se_assert_eq(std::get<0>(t)*S.A, S.Cl, "lift coefficient"); se_assert_eq(std::get<1>(t)*S.A, S.Cdp, "pressure drag coefficient"); se_assert_eq(std::get<2>(t)*S.A, S.Cdf, "friction drag coefficient");
    if (single) { se_assert_ieq(nf, S.n, "faces of the surface"); bool used[32] = {}; int q = 0; for (int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) if (m.gbtags(f,0) == tag) { for (int j = 0; j < 1; j++) { int a = m.gintfac(f,2), b = m.gintfac(f,3), w = -1, n = 0; for (int c = 0; c < g.nc; c++) for (int k = 0; k < g.cnn[c]; k++) { int d, l; if (g.across(c, k, d, l)) continue; int x = g.node(c,k), y = g.node(c,k+1); if (g.btag[g.bidx(x,y)][0] != tag) continue; if ((x == a && y == b) || (x == b && y == a)) w = n; n++; }
            bool fine = w >= 0 && !used[w]; se_assert(fine, "one row for each face of the surface"); if (!fine) return 0.0; used[w] = true; for (int d = 0; d < 2; d++) se_assert_eq(out(q,d), S.x[w][d], "centre of the face"); se_assert_eq(out(q,2), S.cp[w], "pressure coefficient"); se_assert_eq(out(q,3), S.cf[w], "skin friction coefficient"); } q++; } }
    VecDestroy(&u); return std::get<0>(t); };
  if (nr == 1) { se_observe(one(gm, true), "Cl"); return; } const std::vector<int> own = owners(g.nc, nr);
  bool ok = pm_run_ranks(nr, [&](int) { Part p(gm); p.elemdist = own; UMesh<freal,2> m = p.restrictMeshToPartitions(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); one(m, false); }); se_assert(ok, "all processes finish");
}
// ---- files
struct Rd { SeFile* f; std::se_ifstream s; explicit Rd(const char* n) { f = se_file(n, false); if (f) { s.open(n); for (size_t i = 0; i < f->it.size(); i++) if (f->it[i].k == SeItem::REAL) { if (f->it[i].prec < 6) lowprec = true; f->it[i].prec = 0; } } } bool lowprec = false;
  bool find(const char* t, size_t from = 0) { size_t n = strlen(t); for (size_t i = from; i+n <= f->it.size(); i++) { bool ok = true; for (size_t k = 0; k < n && ok; k++) ok = f->it[i+k].k == SeItem::CH && f->it[i+k].i == t[k]; if (ok) { s.p = i+n; return true; } } return false; }
  void past(char c) { while (s.p < f->it.size()) { const SeItem& x = f->it[s.p++]; if (x.k == SeItem::CH && x.i == c) return; } }
  double real() { double v = 0; s >> v; se_assert(!s.fail(), "a number is in the file"); return v; } long num() { long v = 0; s >> v; se_assert(!s.fail(), "an integer is in the file"); return v; } void end(const char* t) { std::string w; s >> w; se_assert(w == t, "end of the list"); } void line() { past('\n'); } };
extern "C" void harness_surface_file() {
  Gen g; grid(g, se_param("sym", 0)); Gas s = gas(); UMesh<freal,2> m = finish(g); auto fv = make(m, s, true, false); IdealGasPhysics<freal> phy(s.g, s.Minf, s.Tinf, s.Reinf, s.Pr); FlowOutput out(fv.get(), &phy, s.aoa); Vec u = state(m, s.g); se_files_clear(); std::vector<int> wb, ob; static const int W[4][2] = {{1,0},{2,1},{3,0},{1,3}}, O[4][2] = {{2,3},{3,0},{0,0},{0,0}}; const int k = (int)se_choose("config", 0, 3); for (int i = 0; i < 2; i++) { if (W[k][i]) wb.push_back(W[k][i]); if (O[k][i]) ob.push_back(O[k][i]); }
  for (int i = 0; i < g.nb; i++) {} bool have[4] = {}; for (int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) have[m.gbtags(f,0)] = true; for (int t : wb) if (!have[t]) return;
  out.exportSurfaceData(u, wb, ob, "case"); se_assert_ieq(se_nfiles, (long)(wb.size()+ob.size()), "one file for each boundary"); std::vector<GradBlock_t<freal,NDIM,NVARS>> gr(m.gnelem()); fv->getGradients(u, &gr[0]);
  for (int t : wb) { Rd r(lab("case-surf_w%.out", t)); se_assert(r.f != nullptr, "file of a wall"); if (!r.f) return; int nf = 0; for (int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) if (m.gbtags(f,0) == t) nf++; MVector<freal> o(nf, 4); std::tuple<freal,freal,freal> c; { ConstVecHandler<freal> uh(u); amat::Array2dView<freal> ua(uh.getArray(), m.gnelem(), 4); c = fv->computeSurfaceData(ua, &gr[0], t, o); }
    r.line(); for (int i = 0; i < nf; i++) for (int j = 0; j < 4; j++) se_assert_eq(r.real(), o(i,j), "row of a wall file"); r.line(); r.line(); r.past('#'); se_assert_eq(r.real(), std::get<0>(c), "lift in the file"); se_assert_eq(r.real(), std::get<1>(c), "pressure drag in the file"); se_assert_eq(r.real(), std::get<2>(c), "friction drag in the file"); se_assert(!r.lowprec, "at least six digits are written"); }
  const double* U = pm_vec(u); for (int t : ob) { Rd r(lab("case-surf_o%.out", t)); se_assert(r.f != nullptr, "file of another boundary"); if (!r.f) return; r.line(); for (int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) if (m.gbtags(f,0) == t) { const int a = m.gintfac(f,2), b = m.gintfac(f,3), c = m.gintfac(f,0); se_assert_eq(r.real(), 0.5*(g.X[a]+g.X[b]), "centre of a face in the file"); se_assert_eq(r.real(), 0.5*(g.Y[a]+g.Y[b]), "centre of a face in the file"); se_assert_eq(r.real()*U[4*c], U[4*c+1], "velocity in the file"); se_assert_eq(r.real()*U[4*c], U[4*c+2], "velocity in the file"); } std::string w; r.s >> w; se_assert(r.s.fail(), "nothing else in the file"); }
  se_assert_ieq(se_glued, 0, "numbers are separated"); se_observe(U[0], "u0"); VecDestroy(&u);
}
extern "C" void harness_volume_file() {
  Gen g; grid(g, se_param("sym", 1)); Gas s = gas(); UMesh<freal,2> m = finish(g); auto fv = make(m, s, false, true); IdealGasPhysics<freal> phy(s.g, s.Minf, s.Tinf, s.Reinf, s.Pr); FlowOutput out(fv.get(), &phy, s.aoa); MVector<freal> u(g.nc, 4); static double X[24][4]; for (int c = 0; c < g.nc; c++) { X[c][0] = se_pos(lab("a%", c)); X[c][1] = se_real(lab("vx%", c)); X[c][2] = se_real(lab("vy%", c)); X[c][3] = se_pos(lab("c%", c)); double q[4]; cons(X[c], s.g, q); for (int v = 0; v < 4; v++) u(c,v) = q[v]; }
  se_files_clear(); out.exportVolumeData(u, "flow"); Rd r("flow-vol.out"); se_assert(r.f != nullptr, "file"); if (!r.f) return; r.line(); for (int c = 0; c < g.nc; c++) { const double* x = X[c]; for (int d = 0; d < 2; d++) se_assert_eq(r.real(), g.centre(c,d), "cell centre in the file"); se_assert_eq(r.real(), x[0]*x[0], "density in the file"); for (int d = 0; d < 2; d++) se_assert_eq(r.real(), x[1+d], "velocity in the file"); se_assert_eq(r.real(), pressure(x, s.g), "pressure in the file"); se_assert_eq(r.real(), x[3]*x[3]*s.Minf*s.Minf, "temperature in the file"); double M = r.real(); se_assert_le(0, M, "Mach number in the file"); se_assert_eq(M*M*x[3]*x[3], x[1]*x[1]+x[2]*x[2], "Mach number in the file"); }
  std::string w; r.s >> w; se_assert(r.s.fail(), "nothing else in the file"); se_assert_ieq(se_glued, 0, "numbers are separated"); se_assert(!r.lowprec, "at least six digits are written"); se_observe(u(0,0), "u0");
}
// VTU files: any mesh (arbitrary node lists), any data
static bool attr(Rd& r, const char* name, double expect) { if (!r.find(name)) { se_assert(false, name); return false; } double v = r.real(); se_assert_eq(v, expect, name); return true; }
extern "C" void harness_vtu() {
  const int kind = (int)se_choose("writer", 0, 2); MeshData md; md.npoin = (int)se_param("np", 3); md.nelem = (int)se_choose("nelem", 1, se_param("maxne", 2)); md.nbface = 0; md.maxnnode = md.maxnfael = 9; md.nnofa = 2; md.nbtag = md.ndtag = 0; md.coords.resize(md.npoin, 2); static double X[8][2]; for (int p = 0; p < md.npoin; p++) for (int d = 0; d < 2; d++) md.coords(p,d) = X[p][d] = se_real(lab("x%_%", p, d));
  static const int NN[5] = {3,4,6,8,9}, TY[5] = {5,9,22,23,28}; int nn[4], ty[4]; long nd[4][9]; md.inpoel.resize(md.nelem, 9); for (int c = 0; c < md.nelem; c++) { int q = (int)se_choose(lab("type%", c), 0, 4); nn[c] = NN[q]; ty[c] = TY[q]; md.nnode.push_back(nn[c]); md.nfael.push_back(q == 0 || q == 2 ? 3 : 4); for (int k = 0; k < 9; k++) { nd[c][k] = se_int(lab("n%_%", c, k), 0, 1000000); md.inpoel(c,k) = (fint)nd[c][k]; } } UMesh<freal,2> m(md);
  se_files_clear(); const int n = kind == 1 ? md.nelem : md.npoin; const int ns = kind == 2 ? 0 : (int)se_choose("scalars", 0, 3), nv = kind == 2 ? 0 : (int)se_choose("vectors", 0, 1); amat::Array2d<double> x, y; static double SX[4][4], SY[4][2]; if (ns) { x.resize(n, ns); for (int i = 0; i < n; i++) for (int j = 0; j < ns; j++) x(i,j) = SX[i][j] = se_real(lab("s%_%", i, j)); } if (nv) { y.resize(n, 2); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) y(i,j) = SY[i][j] = se_real(lab("v%_%", i, j)); }
  std::string names[] = {"density", "mach", "p"}; if (kind == 2) writeMeshToVtu("m.vtu", m); else if (kind == 0) writeScalarsVectorToVtu_PointData("m.vtu", m, x, names, y, "vel"); else writeScalarsVectorToVtu_CellData("m.vtu", m, x, names, y, "vel");
  Rd r("m.vtu"); se_assert(r.f != nullptr, "file"); if (!r.f) return; if (!attr(r, "NumberOfPoints=\"", md.npoin)) return; if (!attr(r, "NumberOfCells=\"", md.nelem)) return;
  if (!r.find("<Points>")) { se_assert(false, "points"); return; } r.past('>'); for (int p = 0; p < md.npoin; p++) { for (int d = 0; d < 2; d++) se_assert_eq(r.real(), X[p][d], "coordinates in the file"); se_assert_eq(r.real(), 0, "third coordinate"); } r.end("</DataArray>");
  if (!r.find("\"connectivity\"")) { se_assert(false, "connectivity"); return; } r.past('>'); long off[4], o = 0; for (int c = 0; c < md.nelem; c++) { int w = kind == 2 && nn[c] == 9 ? 8 : nn[c]; for (int k = 0; k < w; k++) se_assert_ieq(r.num(), nd[c][k], "nodes of a cell in the file"); off[c] = o += w; if (kind == 2 && nn[c] == 9) ty[c] = 23; } r.end("</DataArray>");
  if (!r.find("\"offsets\"")) { se_assert(false, "offsets"); return; } r.past('>'); for (int c = 0; c < md.nelem; c++) se_assert_ieq(r.num(), off[c], "end of the nodes of a cell"); r.end("</DataArray>"); if (!r.find("\"types\"")) { se_assert(false, "types"); return; } r.past('>'); for (int c = 0; c < md.nelem; c++) se_assert_ieq(r.num(), ty[c], "type of a cell"); r.end("</DataArray>");
  const char* sec = kind == 1 ? "<CellData " : "<PointData "; if (ns || nv) { bool ok = r.find(sec); se_assert(ok, "data section"); if (!ok) return; static const char* const NM[3] = {"Name=\"density\"", "Name=\"mach\"", "Name=\"p\""}; for (int j = 0; j < ns; j++) { ok = r.find(NM[j]); se_assert(ok, "scalar"); if (!ok) return; r.past('>'); for (int i = 0; i < n; i++) se_assert_eq(r.real(), SX[i][j], "scalar in the file"); r.end("</DataArray>"); }
    if (nv) { ok = r.find("Name=\"vel\""); se_assert(ok, "vector"); if (!ok) return; r.past('>'); for (int i = 0; i < n; i++) { for (int d = 0; d < 2; d++) se_assert_eq(r.real(), SY[i][d], "vector in the file"); se_assert_eq(r.real(), 0, "third component"); } r.end("</DataArray>"); } }
  else { bool has = r.find("<PointData") || r.find("<CellData"); se_assert(!has, "no data section without data"); } se_assert_ieq(se_glued, 0, "numbers are separated"); se_assert(!r.lowprec, "at least six digits are written"); se_observe(X[0][0], "x");
}
extern "C" void harness_scalar_nodal() {
  Gen g; grid(g, se_param("sym", 0)); UMesh<freal,2> m = finish(g); Vec v; createSystemVector(&m, 1, &v); for (int c = 0; c < g.nc; c++) pm_vec(v)[c] = se_real(lab("u%", c)); amat::Array2d<freal> up; int e = scalar_postprocess_point<1>(&m, v, up); se_assert(e == 0, "no error"); se_assert_ieq(up.rows(), g.np, "size"); se_assert_ieq(up.cols(), 1, "size");
  for (int p = 0; p < g.np; p++) { double w = 0, a = 0; for (int c = 0; c < g.nc; c++) for (int k = 0; k < g.cnn[c]; k++) if (g.cn[c][k] == p) { w += g.area(c); a += g.area(c)*pm_vec(v)[c]; } se_assert_eq(up(p,0)*w, a, "area-weighted average"); } se_observe(up(0,0), "s"); VecDestroy(&v);
}
// P25: the conversion program
extern "C" void harness_convert() {
  Gen g; grid(g, true); cvgen = &g; cvreads = 0; const int what = (int)se_choose("format", 0, 3), argc = (int)se_choose("arguments", 1, 4); static const char* F[4] = {"msh", "vtu", "su2", ""}; char A[5][12] = {"convert", "in.msh", "out.mesh", "", ""}; strcpy(A[3], F[what]); char* argv[5]; for (int i = 0; i < 4; i++) argv[i] = i < argc ? A[i] : nullptr; argv[4] = nullptr; se_files_clear();
  const int rc = convert_main(argc, argv); const bool good = argc == 4 && what < 2; se_assert((rc == 0) == good, "succeeds with three arguments and a known format"); se_assert_ieq(se_nfiles, good, "writes one file, or none"); if (!good || se_nfiles != 1) return;
  se_assert(cvname == "in.msh" && cvreads == 1, "reads the first argument"); se_assert(se_files[0].name == "out.mesh", "writes the second argument"); const UMesh<freal,2> m(g.data()); if (what == 0) m.writeGmsh2("ref"); else writeMeshToVtu("ref", m); const SeFile& a = se_files[0]; const SeFile& b = se_files[1];
  se_assert_ieq((long)a.it.size(), (long)b.it.size(), "the mesh in the format asked for"); for (size_t i = 0; i < a.it.size() && i < b.it.size(); i++) { se_assert(a.it[i].k == b.it[i].k && a.it[i].i == b.it[i].i && a.it[i].prec == b.it[i].prec, "the mesh in the format asked for"); if (a.it[i].k == SeItem::REAL) se_assert_eq(a.it[i].r, b.it[i].r, "coordinates"); } se_observe((long)a.it.size(), "items");
}
