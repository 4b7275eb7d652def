// P29: residual, time scale and implicit operator of the scalar diffusion solver (real spatial/diffusion.cpp, spatial/aspatial.cpp)
// with any cell values, diffusivity, boundary value and source function.
#include "flowfix.hpp"
#define private public
#define protected public
#include "spatial/diffusion.hpp"
#undef private
#undef protected
PmMat* pm_mat(void*); void* pm_make_mat(int nb, int bs, bool world);
static const char* const GR[3] = {"NONE", "GREENGAUSS", "LEASTSQUARES"};
static void grid(Gen& g, bool sym) { long nx = se_param("nx", 2), ny = se_param("ny", 1), ns = 1; for (int i = 0; i < nx*ny; i++) ns *= 3; long sc = nx ? se_choose("split", 0, ns-1) : 0, pat = se_choose("pat", 0, se_param("npat", 1)); if (!nx) ny = se_choose("kind", 0, 5); g.make(nx, ny, sc, pat, sym, true); g.nbtag = 1; g.ndtag = 0; for (int i = 0; i < g.nb; i++) g.btag[i][0] = 1; if (!sym && se_param("skew", 1)) for (int p = 0; p < g.np; p++) { g.X[p] += ((p*5)%7-3)/32.0; g.Y[p] += ((p*3)%5-2)/32.0; } }
static UMesh<freal,2> finish(const Gen& g) { UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); m.globalElemIndex.resize(m.gnelem()); for (int i = 0; i < m.gnelem(); i++) m.globalElemIndex[i] = i; return m; }
static Vec state(const UMesh<freal,2>& m) { Vec v; createGhostedSystemVector(&m, 1, &v); for (int c = 0; c < m.gnelem(); c++) pm_vec(v)[c] = se_real(lab("u%", m.gglobalElemIndex(c))); VecGhostUpdateBegin(v, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v, INSERT_VALUES, SCATTER_FORWARD); return v; }
static void src(const freal* r, const freal t, const freal* u, freal* s) { double x[4] = {r[0], r[1], t, u[0]}; s[0] = se_uf("S", 4, x); }
static void nosrc(const freal*, const freal, const freal*, freal* s) { s[0] = 0; }
static int defg = 0; static int defgrad() { return (int)se_param("grad", defg); }
struct Ref { double c[24][2], fc[48][2]; };
static void geom(const UMesh<freal,2>& m, const Gen& g, Ref& R) { for (int c = 0; c < m.gnelem(); c++) for (int d = 0; d < 2; d++) R.c[c][d] = g.centre(c,d); for (int f = 0; f < m.gnaface(); f++) for (int d = 0; d < 2; d++) R.fc[f][d] = 0.5*(m.gcoords(m.gintfac(f,2),d)+m.gcoords(m.gintfac(f,3),d)); }
// face flux -nu grad(u).n len: average of the cell gradients with the component along the line joining the centres replaced by the difference quotient
static double flux(const UMesh<freal,2>& m, const Ref& R, int f, const double* U, const double* G, double nu, double b) {
  const int l = m.gintfac(f,0), r = m.gintfac(f,1); const bool bnd = f < m.gPhyBFaceEnd() && f >= m.gPhyBFaceStart(); double xr[2], ur, d[2], gl[2], gr[2], gf[2], d2 = 0; auto n = m.gnormal(f); for (int k = 0; k < 2; k++) { gl[k] = G[2*l+k]; if (bnd) { gr[k] = gl[k]; xr[k] = 2*R.fc[f][k]-R.c[l][k]; } else { gr[k] = G[2*r+k]; xr[k] = R.c[r][k]; } d[k] = xr[k]-R.c[l][k]; d2 += d[k]*d[k]; }
  ur = bnd ? 2*b-U[l] : U[r]; double s = 0; for (int k = 0; k < 2; k++) s += 0.5*(gl[k]+gr[k])*d[k]; for (int k = 0; k < 2; k++) gf[k] = 0.5*(gl[k]+gr[k])+(ur-U[l]-s)*d[k]/d2; return -nu*(gf[0]*n[0]+gf[1]*n[1])*m.gfacemetric(f,2); }
static void cellgrads(const UMesh<freal,2>& m, const DiffusionMA<1>& sp, const double* U, double b, double* G) { const int ne = m.gnelem(), nb = m.gnbface(); std::vector<double> ug(nb+1); for (int i = 0; i < nb; i++) ug[i] = 2*b-U[m.gintfac(m.gPhyBFaceStart()+i,0)]; for (int i = 0; i < 2*ne; i++) G[i] = 0; auto gs = create_const_gradientscheme<freal,1>(GR[defgrad()], &m, sp.rch.getArray(), sp.rcbptr); gs->compute_gradients(amat::Array2dView<freal>(U, ne, 1), amat::Array2dView<freal>(&ug[0], nb, 1), G); delete gs; }
extern "C" void harness_diffusion_residual() {
  Gen g; grid(g, se_param("sym", 0)); UMesh<freal,2> m = finish(g); const double nu = se_pos("nu"), b = se_real("b"); DiffusionMA<1> sp(&m, nu, b, src, GR[se_param("grad", 0)]); const int ne = m.gnelem(); Ref R; geom(m, g, R);
  Vec u = state(m), r, dt; createGhostedSystemVector(&m, 1, &r); createSystemVector(&m, 1, &dt); static double ex[24], G[64], sent[24]; for (int c = 0; c < ne; c++) { pm_vec(r)[c] = ex[c] = se_real(lab("r0_%", c)); pm_vec(dt)[c] = sent[c] = se_real(lab("junk%", c)); } const double* U = pm_vec(u);
  cellgrads(m, sp, U, b, G); const bool ts = se_param("ts", 1); int e = sp.compute_residual(u, r, ts, dt); se_assert(e == 0, "no error");
  for (int f = 0; f < m.gnaface(); f++) { double q = flux(m, R, f, U, G, nu, b); ex[m.gintfac(f,0)] -= q; if (m.gintfac(f,1) < ne) ex[m.gintfac(f,1)] += q; }
  for (int c = 0; c < ne; c++) { double s; src(R.c[c], 0, U+c, &s); ex[c] += s*g.area(c); se_assert_eq(pm_vec(r)[c], ex[c], "residual is the sum of the face fluxes and the source"); se_assert_eq(U[c], se_real(lab("u%", c)), "state unchanged");
    double h = 0; for (int k = 0; k < m.gnfael(c); k++) { double dx = g.X[g.node(c,k+1)]-g.X[g.node(c,k)], dy = g.Y[g.node(c,k+1)]-g.Y[g.node(c,k)], l2 = dx*dx+dy*dy; if (l2 > h) h = l2; } if (ts) se_assert_eq(pm_vec(dt)[c]*nu, h, "stored time scale is the square of the longest side over the diffusivity"); else se_assert_eq(pm_vec(dt)[c], sent[c], "time steps untouched when not requested"); }
  se_observe(pm_vec(r)[0], "r0"); VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt);
}
// the gradient interface gives the gradients the residual uses
extern "C" void harness_diffusion_gradients() {
  Gen g; grid(g, se_param("sym", 0)); UMesh<freal,2> m = finish(g); const double b = se_real("b"); DiffusionMA<1> sp(&m, 1.0, b, src, GR[se_param("grad", defg = 1)]); const int ne = m.gnelem(); Vec u = state(m); static double G[64]; cellgrads(m, sp, pm_vec(u), b, G); std::vector<GradBlock_t<freal,NDIM,1>> gr(ne); for (int c = 0; c < ne; c++) for (int d = 0; d < 2; d++) gr[c](d,0) = 0; sp.getGradients(u, &gr[0]);
  for (int c = 0; c < ne; c++) for (int d = 0; d < 2; d++) se_assert_eq(gr[c](d,0), G[2*c+d], "gradient"); se_observe(gr[0](0,0), "g0"); VecDestroy(&u);
}
// a linear field gives its exact constant flux through every internal face; the boundary value everywhere gives none at all
extern "C" void harness_diffusion_linear() {
  Gen g; grid(g, se_param("sym", 0)); UMesh<freal,2> m = finish(g); const double nu = se_pos("nu"), b = se_real("b"), a0 = se_real("a0"), ax = se_real("ax"), ay = se_real("ay"); DiffusionMA<1> sp(&m, nu, b, nosrc, GR[se_param("grad", 2)]); const int ne = m.gnelem(); Ref R; geom(m, g, R); double U[24]; std::vector<GradBlock_t<freal,NDIM,1>> gr(ne); std::vector<double> res(ne); for (int c = 0; c < ne; c++) { U[c] = a0+ax*R.c[c][0]+ay*R.c[c][1]; gr[c](0,0) = ax; gr[c](1,0) = ay; res[c] = 0; }
  const amat::Array2dView<freal> rc(sp.rch.getArray(), ne, 2); amat::Array2dMutableView<freal> rv(&res[0], ne, 1); static double ex[24]; for (int c = 0; c < ne; c++) ex[c] = 0;
  for (int f = m.gDomFaceStart(); f < m.gDomFaceEnd(); f++) { sp.compute_flux_interior(f, rc, U, &gr[0], rv); auto n = m.gnormal(f); double q = -nu*(ax*n[0]+ay*n[1])*m.gfacemetric(f,2); ex[m.gintfac(f,0)] -= q; ex[m.gintfac(f,1)] += q; }
  for (int c = 0; c < ne; c++) se_assert_eq(res[c], ex[c], "flux of a linear field");
  Vec u, r; createGhostedSystemVector(&m, 1, &u); createGhostedSystemVector(&m, 1, &r); Vec dt; createSystemVector(&m, 1, &dt); for (int c = 0; c < ne; c++) { pm_vec(u)[c] = b; pm_vec(r)[c] = 0; } sp.compute_residual(u, r, false, dt); for (int c = 0; c < ne; c++) se_assert_eq(pm_vec(r)[c], 0, "uniform field equal to the boundary value"); se_observe(res[0], "r0"); VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt);
}
// the assembled operator is the derivative of the negated residual with the cell gradients held fixed (none here) and no source
extern "C" void harness_diffusion_jacobian() {
  Gen g; grid(g, se_param("sym", 1)); UMesh<freal,2> m = finish(g); const double nu = se_pos("nu"), b = se_real("b"); DiffusionMA<1> sp(&m, nu, b, nosrc, "NONE"); const int ne = m.gnelem(); if (ne > 8) return; Vec u = state(m), dt; createSystemVector(&m, 1, &dt); Mat A = (Mat)pm_make_mat(ne, 1, true); int e = sp.assemble_jacobian(u, A); se_assert(e == 0, "no error"); double* U = pm_vec(u); PmMat* P = pm_mat(A);
  double x[8], out[8], D[64]; for (int i = 0; i < 8; i++) x[i] = i < ne ? U[i] : 0; bool bnd[8] = {}; for (int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) bnd[m.gintfac(f,0)] = true;
  // the residual is affine in the cell values: its derivative is the difference of two evaluations
  auto res = [&](const double* y, double* o) { for (int i = 0; i < ne; i++) U[i] = y[i]; Vec r; createGhostedSystemVector(&m, 1, &r); sp.compute_residual(u, r, false, dt); for (int i = 0; i < ne; i++) o[i] = -pm_vec(r)[i]; VecDestroy(&r); }; res(x, out);
  for (int c = 0; c < ne; c++) { double y[8], o[8]; for (int i = 0; i < ne; i++) y[i] = x[i]; y[c] += 1; res(y, o); for (int i = 0; i < ne; i++) D[i*8+c] = o[i]-out[i]; }
  const bool bd = se_param("boundary", 0); for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++) { double a = P->a[i*P->gbrows+j]; if (i == j && bnd[i] != bd) continue; if (i != j && bd) continue; se_assert_eq(a, D[i*8+j], i == j ? bd ? "diagonal entry of a boundary cell" : "diagonal entry of an internal cell" : "off-diagonal entry"); }
  if (!bd) for (int i = 0; i < ne; i++) { double s = 0; for (int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) if (m.gintfac(f,0) == i) s = 1; if (s == 0) { double t = 0; for (int j = 0; j < ne; j++) t += P->a[i*P->gbrows+j]; se_assert_eq(t, 0, "rows of internal cells sum to zero"); } for (int j = 0; j < ne; j++) se_assert_eq(P->a[i*P->gbrows+j], P->a[j*P->gbrows+i], "symmetric operator"); }
  se_observe(P->a[0], "A00"); VecDestroy(&u); VecDestroy(&dt);
}
extern "C" void harness_diffusion_parallel() {
  Gen g; grid(g, se_param("sym", 0)); const int nr = (int)se_param("ranks", 2), ne = g.nc; if (ne < nr) return; const double nu = se_pos("nu"), b = se_real("b"); pm_begin_world(1); UMesh<freal,2> gm = finish(g); static double ref[24], rdt[24], rA[24*24], got[24], gdt[24]; int seen[24];
  { DiffusionMA<1> sp(&gm, nu, b, src, GR[se_param("grad", 1)]); Vec u = state(gm), r, dt; createGhostedSystemVector(&gm, 1, &r); createSystemVector(&gm, 1, &dt); sp.compute_residual(u, r, true, dt); Mat A = (Mat)pm_make_mat(ne, 1, true); sp.assemble_jacobian(u, A); for (int c = 0; c < ne; c++) { ref[c] = pm_vec(r)[c]; rdt[c] = pm_vec(dt)[c]; seen[c] = 0; } for (int i = 0; i < ne*ne; i++) rA[i] = pm_mat(A)->a[i]; VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt); }
  bool ok = pm_run_ranks(nr, [&](int) { Part p(gm); p.elemdist.resize(ne); for (int c = 0; c < ne; c++) p.elemdist[c] = (c*nr)/ne; UMesh<freal,2> m = p.restrictMeshToPartitions(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); DiffusionMA<1> sp(&m, nu, b, src, GR[se_param("grad", 1)]); Vec u = state(m), r, dt; createGhostedSystemVector(&m, 1, &r); createSystemVector(&m, 1, &dt); int e = sp.compute_residual(u, r, true, dt); se_assert(e == 0, "no error"); VecGhostUpdateBegin(r, ADD_VALUES, SCATTER_REVERSE); VecGhostUpdateEnd(r, ADD_VALUES, SCATTER_REVERSE); /* as the pseudo-time solvers do */ Mat A = (Mat)pm_make_mat(ne, 1, true); sp.assemble_jacobian(u, A);
    for (int c = 0; c < m.gnelem(); c++) { int G = m.gglobalElemIndex(c); seen[G] = 1; got[G] = pm_vec(r)[c]; gdt[G] = pm_vec(dt)[c]; for (int j = 0; j < ne; j++) se_assert_eq(pm_mat(A)->a[G*ne+j], rA[G*ne+j], "same matrix rows on several processes"); } });
  se_assert(ok, "all processes finish"); for (int c = 0; c < ne; c++) { se_assert_ieq(seen[c], 1, "each cell has a residual"); if (!seen[c]) continue; se_assert_eq(got[c], ref[c], "same residual on several processes"); se_assert_eq(gdt[c], rdt[c], "same time scale on several processes"); } se_observe(ref[0], "r0");
}
// nodal output of a scalar field
extern "C" void harness_scalar_points() {
  Gen g; grid(g, se_param("sym", 1)); UMesh<freal,2> m = finish(g); Vec u = state(m); amat::Array2d<freal> up((int)se_choose("rows", 0, 1)*2, 1); int e = scalar_postprocess_point<1>(&m, u, up); se_assert(e == 0, "no error"); se_assert_ieq(up.rows(), g.np, "one value per point"); if (up.rows() != g.np) return;
  for (int p = 0; p < g.np; p++) { double s = 0, w = 0; for (int c = 0; c < g.nc; c++) for (int k = 0; k < g.cnn[c]; k++) if (g.cn[c][k] == p) { s += g.area(c)*se_real(lab("u%", c)); w += g.area(c); } se_assert_eq(up(p,0)*w, s, "nodal value is the area-weighted average of the cells around the point"); }
  for (int c = 0; c < g.nc; c++) se_assert_eq(pm_vec(u)[c], se_real(lab("u%", c)), "state unchanged"); se_observe(up(0,0), "up0"); VecDestroy(&u);
}
