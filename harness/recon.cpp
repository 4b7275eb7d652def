// P17, P18: gradient schemes and face reconstruction (real spatial/agradientschemes.cpp, areconstruction.cpp, limitedlinearreconstruction.cpp, musclreconstruction.cpp)
#include <memory>
#include <cmath>
#include "meshgen.hpp"
#include "spatial/agradientschemes.hpp"
#include "spatial/areconstruction.hpp"
#include "spatial/limitedlinearreconstruction.hpp"
#include "spatial/musclreconstruction.hpp"
typedef Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor> DMat;
struct Fix {
  Gen g; UMesh<freal,2>* m; double rc[80], rb[64]; amat::Array2d<freal> gr; int ne, nb, nc, nf;
  // sym: symbolic vertices; rect: rectangular grid with symbolic spacings; symc: number of neighbour centres (connectivity and boundary ghosts) placed anywhere
  Fix() {
    long nx = se_param("nx", 2), ny = se_param("ny", 1), ns = 1; const bool rect = se_param("rect", 0); for (int i = 0; i < nx*ny; i++) ns *= 3; if (rect) ns = 1;
    long sc = se_choose("split", 0, ns-1), pat = se_choose("pat", 0, se_param("npat", 1)); g.make(nx, ny, sc, pat, se_param("sym", 0), true); g.nbtag = 1; g.ndtag = 0;
    if (rect) { Gen h; h.make(nx, ny, 0, pat, false, true, 0); double xs[8], ys[8]; xs[0] = se_real("x0"); ys[0] = se_real("y0"); for (int i = 0; i < nx; i++) xs[i+1] = xs[i]+se_range(lab("dx%", i), 0.25, 4); for (int j = 0; j < ny; j++) ys[j+1] = ys[j]+se_range(lab("dy%", j), 0.25, 4);
      int pn[36]; g.seed = 977u*(unsigned)pat+13u; g.shuffle(pn, g.np, pat > 0); for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { int p = pn[j*(nx+1)+i]; g.X[p] = xs[i]; g.Y[p] = ys[j]; } }
    if (long mask = se_choose("cut", 0, se_param("ncut", 0))) g.cutfaces(mask == 1 ? 1u : mask == 2 ? 6u : 0xffffu);
    m = new UMesh<freal,2>(g.data()); g.install_cuts(*m); m->correctBoundaryFaceOrientation(); m->compute_topological(); m->compute_areas(); m->compute_face_data(); m->compute_cell_centres(rc);
    ne = m->gnelem(); nb = m->gnbface(); nc = m->gnConnFace(); nf = m->gnaface(); gr.resize(nf, 2);
    int nsym = (int)se_param("symc", 0);
    for (int f = 0; f < nf; f++) for (int d = 0; d < 2; d++) gr(f,d) = 0.5*(m->gcoords(m->gintfac(f,2),d)+m->gcoords(m->gintfac(f,3),d));
    for (int f = 0; f < nf; f++) { int q = m->gintfac(f,1); if (q < ne) continue; double* x = q < ne+nc ? rc+2*q : rb+2*(f-m->gPhyBFaceStart()); for (int d = 0; d < 2; d++) { x[d] = 2*gr(f,d)-rc[2*m->gintfac(f,0)+d]; if (nsym > 0) x[d] += se_range(lab(d ? "gy%" : "gx%", f), -0.25, 0.25);  if (se_param("off", 0)) x[d] += 0.0625*((f+2*d)%3); } nsym--; }
  }
  double* cen(int f, int side) { int q = m->gintfac(f,side); return q < ne+nc ? rc+2*q : rb+2*(f-m->gPhyBFaceStart()); }
};
struct Lin { double c[4][3]; Lin() { for (int v = 0; v < 4; v++) for (int k = 0; k < 3; k++) c[v][k] = se_real(lab("k%_%", v, k)); } double at(const double* x, int v) const { return c[v][0]+c[v][1]*x[0]+c[v][2]*x[1]; } };
template<int NV> static std::unique_ptr<GradientScheme<freal,NV>> scheme(Fix& X, int s) { GradientScheme<freal,NV>* p; if (s == 0) p = new ZeroGradients<freal,NV>(X.m, X.rc, X.rb); else if (s == 1) p = new GreenGaussGradients<freal,NV>(X.m, X.rc, X.rb); else p = new WeightedLeastSquaresGradients<freal,NV>(X.m, X.rc, X.rb); return std::unique_ptr<GradientScheme<freal,NV>>(p); }
// linear (fld=1) or constant (fld=0) fields
template<int NV> static void gradients() {
  Fix X; Lin L; const int s = (int)se_param("scheme", 2); const bool lin = se_param("fld", 1); DMat u(X.ne+X.nc, NV), ug(X.nb ? X.nb : 1, NV); double zero[2] = {0, 0};
  for (int i = 0; i < X.ne+X.nc; i++) for (int v = 0; v < NV; v++) u(i,v) = L.at(lin ? X.rc+2*i : zero, v); for (int i = 0; i < X.nb; i++) for (int v = 0; v < NV; v++) ug(i,v) = L.at(lin ? X.rb+2*i : zero, v);
  double G[24*8]; for (int i = 0; i < X.ne*2*NV; i++) G[i] = se_real(lab("junk%", i));
  auto S = scheme<NV>(X, s); S->compute_gradients(amat::Array2dView<freal>(&u(0,0), X.ne+X.nc, NV), amat::Array2dView<freal>(&ug(0,0), X.nb, NV), G);
  for (int i = 0; i < X.ne; i++) for (int v = 0; v < NV; v++) for (int d = 0; d < 2; d++) se_assert_eq(G[i*2*NV+2*v+d], lin && s ? L.c[v][1+d] : 0, lab("gradient of a % field, direction %", lin, d)); se_observe(G[0], "G0"); }
extern "C" void harness_gradients() { if (se_param("nv", 4) == 1) gradients<1>(); else gradients<4>(); }
// any field: every neighbour contributes like any other, whatever kind of face separates it (a cell is compared with a single-cell stencil formula)
extern "C" void harness_gradients_any() {
  Fix X; const int s = (int)se_param("scheme", 2); double u[80], ug[32], G[48]; for (int i = 0; i < X.ne+X.nc; i++) u[i] = se_real(lab("u%", i)); for (int i = 0; i < X.nb; i++) ug[i] = se_real(lab("g%", i)); for (int i = 0; i < X.ne*2; i++) G[i] = se_real(lab("junk%", i));
  auto S = scheme<1>(X, s); S->compute_gradients(amat::Array2dView<freal>(u, X.ne+X.nc, 1), amat::Array2dView<freal>(ug, X.nb, 1), G);
  for (int i = 0; i < X.ne; i++) { double V[3] = {0,0,0}, b[2] = {0,0};
    for (int f = 0; f < X.nf; f++) { int l = X.m->gintfac(f,0), r = X.m->gintfac(f,1); if (l != i && r != i) continue; const double* a = X.cen(f, l == i ? 0 : 1); const double* c = X.cen(f, l == i ? 1 : 0); double ui = u[i], uj = l != i ? u[l] : r < X.ne+X.nc ? u[r] : ug[f-X.m->gPhyBFaceStart()];
      if (s == 2) { double dx = c[0]-a[0], dy = c[1]-a[1], w = 1/(dx*dx+dy*dy); V[0] += w*dx*dx; V[1] += w*dx*dy; V[2] += w*dy*dy; b[0] += w*dx*(uj-ui); b[1] += w*dy*(uj-ui); }
      else { double p[2] = {X.gr(f,0), X.gr(f,1)}, da = std::sqrt((p[0]-a[0])*(p[0]-a[0])+(p[1]-a[1])*(p[1]-a[1])), dc = std::sqrt((p[0]-c[0])*(p[0]-c[0])+(p[1]-c[1])*(p[1]-c[1])), uf = (ui*dc+uj*da)/(da+dc);
        auto n = X.m->gnormal(f); double len = X.m->gfacemetric(f,2), sg = l == i ? 1 : -1; for (int d = 0; d < 2; d++) b[d] += sg*uf*n[d]*len; } }
    if (s == 2) { se_assert_eq(V[0]*G[2*i]+V[1]*G[2*i+1], b[0], "normal equations of the weighted least squares [0]"); se_assert_eq(V[1]*G[2*i]+V[2]*G[2*i+1], b[1], "normal equations of the weighted least squares [1]"); }
    else for (int d = 0; d < 2; d++) se_assert_eq(G[2*i+d]*X.g.area(i), b[d], lab("Green-Gauss sum [%]", d)); }
  se_observe(G[0], "G0"); }
static const char* const RN[5] = {"linear", "WENO", "Van Albada", "Barth-Jespersen", "Venkatakrishnan"};
template<int NV> static std::unique_ptr<SolutionReconstruction<freal,NV>> recon(Fix& X, int s, double k) { SolutionReconstruction<freal,NV>* p;
  switch (s) { case 0: p = new LinearUnlimitedReconstruction<freal,NV>(X.m, X.rc, X.rb, X.gr); break; case 1: p = new WENOReconstruction<freal,NV>(X.m, X.rc, X.rb, X.gr, k); break; case 2: p = new MUSCLVanAlbada<freal,NV>(X.m, X.rc, X.rb, X.gr); break; case 3: p = new BarthJespersenLimiter<freal,NV>(X.m, X.rc, X.rb, X.gr); break; default: p = new VenkatakrishnanLimiter<freal,NV>(X.m, X.rc, X.rb, X.gr, k); }
  return std::unique_ptr<SolutionReconstruction<freal,NV>>(p); }
struct Faces { amat::Array2d<freal> L, R; Faces(int nf, int nv) : L(nf, nv), R(nf, nv) { for (int f = 0; f < nf; f++) for (int v = 0; v < nv; v++) { L(f,v) = se_real(lab("jl%_%", f, v)); R(f,v) = se_real(lab("jr%_%", f, v)); } }
  template<int NV> void run(Fix& X, int s, double k, const DMat& u, const DMat& ug, const double* G) { MVector<freal> uu(X.ne+X.nc, NV); for (int i = 0; i < X.ne+X.nc; i++) for (int v = 0; v < NV; v++) uu(i,v) = u(i,v); amat::Array2dMutableView<freal> lv(&L(0,0), X.nf, NV), rv(&R(0,0), X.nf, NV); recon<NV>(X, s, k)->compute_face_values(uu, amat::Array2dView<freal>(&ug(0,0), X.nb, NV), G, lv, rv); } };
// constant field: both sides of every face get the cell value
extern "C" void harness_recon_constant() {
  Fix X; const int s = (int)se_param("rec", 0); DMat u(X.ne+X.nc, 4), ug(X.nb ? X.nb : 1, 4); double G[40*8]; for (double& x : G) x = 0; double k = se_range("K", 0.5, 20); double c[4]; for (int v = 0; v < 4; v++) c[v] = se_real(lab("c%", v));
  for (int v = 0; v < 4; v++) { for (int i = 0; i < X.ne+X.nc; i++) u(i,v) = c[v]; for (int i = 0; i < X.nb; i++) ug(i,v) = c[v]; }
  Faces F(X.nf, 4); F.run<4>(X, s, k, u, ug, G); for (int f = 0; f < X.nf; f++) for (int v = 0; v < 4; v++) { se_assert_eq(F.L(f,v), c[v], "left value of a constant field"); if (X.m->gintfac(f,1) < X.ne) se_assert_eq(F.R(f,v), c[v], "right value of a constant field"); }
  se_observe(F.L(0,0), "L0"); }
// linear field with exact gradients: linear and WENO are exact, Van Albada takes the mean of the neighbours
extern "C" void harness_recon_linear() {
  Fix X; Lin L; const int s = (int)se_param("rec", 0); DMat u(X.ne+X.nc, 4), ug(X.nb ? X.nb : 1, 4); double G[40*8]; for (int v = 0; v < 4; v++) { for (int i = 0; i < X.ne+X.nc; i++) { u(i,v) = L.at(X.rc+2*i, v); for (int d = 0; d < 2; d++) G[8*i+2*v+d] = L.c[v][1+d]; } for (int i = 0; i < X.nb; i++) ug(i,v) = L.at(X.rb+2*i, v); }
  Faces F(X.nf, 4); F.run<4>(X, s, se_range("K", 0.5, 20), u, ug, G);
  for (int f = 0; f < X.nf; f++) { double p[2] = {X.gr(f,0), X.gr(f,1)}; for (int v = 0; v < 4; v++) { double e = s == 2 ? 0.5*(L.at(X.cen(f,0), v)+L.at(X.cen(f,1), v)) : L.at(p, v); se_assert_eq(F.L(f,v), e, "left value of a linear field"); if (X.m->gintfac(f,1) < X.ne) se_assert_eq(F.R(f,v), e, "right value of a linear field"); } }
  se_observe(F.L(0,0), "L0"); }
// any cell values and gradients: the unlimited scheme extrapolates each side from its own cell
extern "C" void harness_recon_any() {
  Fix X; DMat u(X.ne+X.nc, 4), ug(X.nb ? X.nb : 1, 4); double G[40*8]; for (int i = 0; i < X.ne+X.nc; i++) for (int v = 0; v < 4; v++) { u(i,v) = se_real(lab("u%_%", i, v)); for (int d = 0; d < 2; d++) G[8*i+2*v+d] = se_real(lab("d%_%_%", i, v, d)); } for (int i = 0; i < X.nb; i++) for (int v = 0; v < 4; v++) ug(i,v) = se_real(lab("g%_%", i, v));
  Faces F(X.nf, 4); F.run<4>(X, 0, 1, u, ug, G); for (int f = 0; f < X.nf; f++) for (int side = 0; side < 2; side++) { int q = X.m->gintfac(f,side); if (q >= X.ne) continue; for (int v = 0; v < 4; v++) se_assert_eq((side ? F.R : F.L)(f,v), u(q,v)+G[8*q+2*v]*(X.gr(f,0)-X.rc[2*q])+G[8*q+2*v+1]*(X.gr(f,1)-X.rc[2*q+1]), "extrapolated from the own cell"); }
  se_observe(F.L(0,0), "L0"); }
// limiters: one cell (focus) with any value and gradient among any neighbours; the other cells are flat and at rest with their ghosts
extern "C" void harness_recon_limited() {
  Fix X; const int s = (int)se_param("rec", 3); DMat u(X.ne+X.nc, 1), ug(X.nb ? X.nb : 1, 1); double G[80]; for (double& x : G) x = 0; const int fc = (int)se_choose("focus", 0, X.ne-1);
  bool nbr[24]; for (int i = 0; i < X.ne+X.nc; i++) nbr[i] = i == fc; double um[5]; int nn = 0;
  for (int k = 0; k < X.m->gnfael(fc); k++) { int j = X.m->gesuel(fc,k); if (j < X.ne+X.nc) nbr[j] = true; } double uc = se_real("uc"); u(fc,0) = uc; for (int i = 0; i < X.ne+X.nc; i++) if (i != fc) u(i,0) = nbr[i] ? se_real(lab("u%", i)) : 0;
  for (int f = X.m->gPhyBFaceStart(); f < X.m->gPhyBFaceEnd(); f++) { int l = X.m->gintfac(f,0); ug(f-X.m->gPhyBFaceStart(),0) = l == fc ? se_real(lab("g%", f)) : u(l,0); }
  if (se_param("one", 0)) { const int c = (int)se_choose("nbr", 0, X.m->gnfael(fc)-1); for (int k = 0; k < X.m->gnfael(fc); k++) if (k != c) { int f = X.m->gelemface(fc,k), o = X.m->gintfac(f,0) == fc ? X.m->gintfac(f,1) : X.m->gintfac(f,0); (o < X.ne+X.nc ? u(o,0) : ug(f-X.m->gPhyBFaceStart(),0)) = uc; } } // only one neighbour differs
  for (int k = 0; k < X.m->gnfael(fc); k++) { int f = X.m->gelemface(fc,k), o = X.m->gintfac(f,0) == fc ? X.m->gintfac(f,1) : X.m->gintfac(f,0); um[nn++] = o < X.ne+X.nc ? u(o,0) : ug(f-X.m->gPhyBFaceStart(),0); }
  if (se_param("bysign", 1)) { const long sg = se_choose("signs", 0, (1L<<nn)-1); for (int k = 0; k < nn; k++) if ((sg >> k) & 1) se_assume_le(uc, um[k]); else se_assume_le(um[k], uc); }
  for (int d = 0; d < 2; d++) G[2*fc+d] = se_real(lab("d%", d)); const double K = se_range("K", 0.5, 20); Faces F(X.nf, 1); F.run<1>(X, s, K, u, ug, G);
  double mn = uc, mx = uc; for (int k = 0; k < nn; k++) { if (um[k] < mn) mn = um[k]; if (um[k] > mx) mx = um[k]; } double h2 = 0; for (int k = 0; k < X.g.cnn[fc]; k++) { int a = X.g.node(fc,k), b = X.g.node(fc,k+1); double q = (X.g.X[a]-X.g.X[b])*(X.g.X[a]-X.g.X[b])+(X.g.Y[a]-X.g.Y[b])*(X.g.Y[a]-X.g.Y[b]); if (q > h2) h2 = q; }
  for (int k = 0; k < nn; k++) { int f = X.m->gelemface(fc,k); double x = X.m->gintfac(f,0) == fc ? F.L(f,0) : F.R(f,0), full = G[2*fc]*(X.gr(f,0)-X.rc[2*fc])+G[2*fc+1]*(X.gr(f,1)-X.rc[2*fc+1]);
    if (s == 3) { se_assert_le(mn, x, "not below the neighbours"); se_assert_le(x, mx, "not above the neighbours"); if (mn < uc && uc < mx) { int ok = 1; (void)ok; } }
    else { const double e = K*K*K*h2*h2*h2*0.125, c = 1; (void)e; if (se_param("thr", 1)) { se_assert_le(x-mx, c*se_range("thr", 0, 1000), "overshoot limited by the smoothing threshold"); se_assert_le(mn-x, c*se_range("thr", 0, 1000), "undershoot limited by the smoothing threshold"); } }
    if (full < 0) { se_assert_le(x, uc, "limited extrapolation keeps its direction"); se_assert_le(uc+full, x, "limiter at most one"); } else { se_assert_le(uc, x, "limited extrapolation keeps its direction"); se_assert_le(x, uc+full, "limiter at most one"); } }
  se_observe(F.L(0,0), "L0"); }
// slope limiter between two cells with any values and gradients: each side stays between the two values (up to the smoothing constant)
extern "C" void harness_recon_slope() {
  Fix X; DMat u(X.ne+X.nc, 1), ug(X.nb ? X.nb : 1, 1); double G[80]; for (double& x : G) x = 0; const int f = (int)se_choose("face", 0, X.nf-1); int l = X.m->gintfac(f,0), r = X.m->gintfac(f,1); for (int i = 0; i < X.ne+X.nc; i++) u(i,0) = 0; for (int i = 0; i < X.nb; i++) ug(i,0) = 0;
  const double t = se_pos("jump"), q = se_pos("ratio"), jump = se_choose("down", 0, 1) ? -t : t, ratio = se_choose("reversal", 0, 1) ? -q : q; // biased difference = ratio * jump
  double ul = 0, ur = jump; if (r < X.ne+X.nc) u(r,0) = ur; else ug(f-X.m->gPhyBFaceStart(),0) = ur; const int side = r < X.ne ? (int)se_choose("side", 0, 1) : 0; int o = side ? r : l; const double *a = X.cen(f, 0), *b = X.cen(f, 1); double dx = b[0]-a[0], dy = b[1]-a[1];
  if (dx != 0) G[2*o] = 0.5*(ratio+1)*jump/dx; else G[2*o+1] = 0.5*(ratio+1)*jump/dy;
  Faces F(X.nf, 1); F.run<1>(X, 2, 1, u, ug, G); double x = side ? F.R(f,0) : F.L(f,0); const double sl = 1e-4;
  double mn = ul < ur ? ul : ur, mx = ul < ur ? ur : ul; se_assert_le(mn-sl, x, "not below both values"); se_assert_le(x, mx+sl, "not above both values"); se_observe(x, "x"); }

// limiters against their defining functions of the differences, for a cell among neighbours of which two differ: Venkatakrishnan (D^2+2Dd+e)/(D^2+Dd+2d^2+e) with e the cube of K times the longest edge of the cell, Barth-Jespersen min(1, D/d); the smallest over the faces limits all of them
extern "C" void harness_recon_limiter() {
  Fix X; const int s = (int)se_param("rec", 4); DMat u(X.ne+X.nc, 1), ug(X.nb ? X.nb : 1, 1); double G[80]; for (double& x : G) x = 0; const int fc = (int)se_choose("focus", 0, X.ne-1), nf = X.m->gnfael(fc); const double uc = se_real("uc"), K = se_range("K", 0.5, 20); const int c = (int)se_choose("nbr", 0, nf-1);
  for (int i = 0; i < X.ne+X.nc; i++) u(i,0) = uc; for (int i = 0; i < X.nb; i++) ug(i,0) = uc; const double D = se_real("D"), E = se_param("two", 0) ? se_real("E") : 0;
  for (int k = 0; k < 2; k++) { int f = X.m->gelemface(fc,(c+k)%nf), o = X.m->gintfac(f,0) == fc ? X.m->gintfac(f,1) : X.m->gintfac(f,0); (o < X.ne+X.nc ? u(o,0) : ug(f-X.m->gPhyBFaceStart(),0)) = uc+(k ? E : D); }
  static const double DX[4] = {1, 0, 1, 3}, DY[4] = {0, 1, 2, -1}; const int dir = (int)se_choose("dir", 0, 3); const double a = se_pos("slope"); G[2*fc] = a*DX[dir]; G[2*fc+1] = a*DY[dir];
  double h2 = 0; for (int k = 0; k < X.g.cnn[fc]; k++) { int p = X.g.node(fc,k), q = X.g.node(fc,k+1); double l = (X.g.X[p]-X.g.X[q])*(X.g.X[p]-X.g.X[q])+(X.g.Y[p]-X.g.Y[q])*(X.g.Y[p]-X.g.Y[q]); if (l > h2) h2 = l; }
  const double h = std::sqrt(h2), e = K*h2*K*h*K; double lim = 1, dm[4], lo = 0, hi = 0; for (double q : {D, E}) { if (q < lo) lo = q; if (q > hi) hi = q; }
  for (int k = 0; k < nf; k++) { int f = X.m->gelemface(fc,k); dm[k] = a*(DX[dir]*(X.gr(f,0)-X.rc[2*fc])+DY[dir]*(X.gr(f,1)-X.rc[2*fc+1])); const double dp = dm[k] < 0 ? lo : hi; double phi = 1; if (s == 4) phi = (dp*dp+2*dp*dm[k]+e)/(dp*dp+dp*dm[k]+2*dm[k]*dm[k]+e); else if (dm[k] != 0) phi = dp/dm[k]; if (phi < lim) lim = phi; }
  Faces F(X.nf, 1); F.run<1>(X, s, K, u, ug, G); for (int k = 0; k < nf; k++) { int f = X.m->gelemface(fc,k); se_assert_eq(X.m->gintfac(f,0) == fc ? F.L(f,0) : F.R(f,0), uc+lim*dm[k], s == 4 ? "Venkatakrishnan limiter" : "Barth-Jespersen limiter"); } se_observe(lim, "limiter"); }
// WENO: the slope is the average of the gradients of the cell and of its neighbours of the same or another process, weighted by the inverse fourth power of their squared size plus 1e-5, the cell itself K times more
extern "C" void harness_recon_weno() {
  Fix X; const int cp = se_param("both", 0) ? 2 : (int)se_choose("comp", 0, 1); DMat u(X.ne+X.nc, 1), ug(X.nb ? X.nb : 1, 1); double G[80]; const int fc = (int)se_choose("focus", 0, X.ne-1); const double K = se_range("K", 0.5, 20); for (int i = 0; i < X.ne+X.nc; i++) { u(i,0) = se_real(lab("u%", i)); for (int d = 0; d < 2; d++) G[2*i+d] = d == cp ? 0.5*(i+1) : se_real(lab("d%_%", i, d)); } for (int i = 0; i < X.nb; i++) ug(i,0) = se_real(lab("g%", i));
  Faces F(X.nf, 1); F.run<1>(X, 1, K, u, ug, G); double w = 0, S[2] = {0, 0};
  for (int k = -1; k < X.m->gnfael(fc); k++) { int j = fc; if (k >= 0) { int f = X.m->gelemface(fc,k); j = X.m->gintfac(f,0) == fc ? X.m->gintfac(f,1) : X.m->gintfac(f,0); } if (j >= X.ne+X.nc) continue; double q = G[2*j]*G[2*j]+G[2*j+1]*G[2*j+1]+1e-5, v = (k < 0 ? K : 1)/(q*q*q*q); w += v; for (int d = 0; d < 2; d++) S[d] += v*G[2*j+d]; }
  for (int k = 0; k < X.m->gnfael(fc); k++) { int f = X.m->gelemface(fc,k); se_assert_eq(X.m->gintfac(f,0) == fc ? F.L(f,0) : F.R(f,0), u(fc,0)+(S[0]*(X.gr(f,0)-X.rc[2*fc])+S[1]*(X.gr(f,1)-X.rc[2*fc+1]))/w, "average of the stencil gradients"); } se_observe(F.L(0,0), "L0"); }
