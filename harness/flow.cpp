// P12 (ghost centres), P19, P20, P21: residual, time step and implicit operator of FlowFV (real spatial/flow_spatial.cpp, spatial/aspatial.cpp)
// with any numerical flux, any flux linearisation and any boundary condition (uninterpreted functions).
#include "flowfix.hpp"
typedef Eigen::Matrix<freal,NVARS,NVARS,Eigen::RowMajor> Blk;
static int kind = 0;   // 0: any function; 1: polynomial with exact derivatives; 2: consistent (both states must be equal); 3: any antisymmetric function
static double gasg = 1.4;
static bool posbc = false; // ghost states with positive density and pressure
struct SFlux : InviscidFlux<freal> {
  SFlux(const IdealGasPhysics<freal>* p) : InviscidFlux<freal>(p) {}
  static void uf(const freal* a, const freal* b, double nx, double ny, freal* f) { double x[10] = {a[0],a[1],a[2],a[3],b[0],b[1],b[2],b[3],nx,ny}; for (int k = 0; k < 4; k++) f[k] = se_uf(lab("F%", k), 10, x); }
  void get_flux(const freal* const a, const freal* const b, const freal* const n, freal* const f) const {
    if (kind == 0) uf(a, b, n[0], n[1], f);
    else if (kind == 1) for (int k = 0; k < 4; k++) f[k] = n[0]*(3*a[k]+2*b[k]+a[k]*b[(k+1)%4]) + n[1]*(a[(k+2)%4]*a[k]-5*b[k]*b[(k+3)%4]);
    else if (kind == 2) { for (int k = 0; k < 4; k++) se_assert_eq(a[k], b[k], lab("equal states on both sides of the face [%]", k)); double vn = (a[1]*n[0]+a[2]*n[1])/a[0], p = (gasg-1)*(a[3]-0.5*(a[1]*a[1]+a[2]*a[2])/a[0]); f[0] = a[0]*vn; f[1] = a[1]*vn+p*n[0]; f[2] = a[2]*vn+p*n[1]; f[3] = (a[3]+p)*vn; }
    else { double g[4]; uf(a, b, n[0], n[1], f); uf(b, a, -n[0], -n[1], g); for (int k = 0; k < 4; k++) f[k] -= g[k]; }
  }
  void get_jacobian(const freal* const a, const freal* const b, const freal* const n, freal* const L, freal* const U) const {   // L = -dF/da, U = dF/db
    if (kind == 1) { for (int i = 0; i < 16; i++) L[i] = U[i] = 0;
      for (int k = 0; k < 4; k++) { L[k*4+k] -= n[0]*(3+b[(k+1)%4]); U[k*4+k] += 2*n[0]; U[k*4+(k+1)%4] += n[0]*a[k]; L[k*4+(k+2)%4] -= n[1]*a[k]; L[k*4+k] -= n[1]*a[(k+2)%4]; U[k*4+k] -= 5*n[1]*b[(k+3)%4]; U[k*4+(k+3)%4] -= 5*n[1]*b[k]; } }
    else { double x[10] = {a[0],a[1],a[2],a[3],b[0],b[1],b[2],b[3],n[0],n[1]}, y[10] = {b[0],b[1],b[2],b[3],a[0],a[1],a[2],a[3],-n[0],-n[1]}; // viewed from the other side the blocks exchange their roles
      for (int i = 0; i < 16; i++) { if (kind == 3) { L[i] = se_uf(lab("L%", i), 10, x)+se_uf(lab("U%", i), 10, y); U[i] = se_uf(lab("U%", i), 10, x)+se_uf(lab("L%", i), 10, y); } else { L[i] = se_uf(lab("L%", i), 10, x); U[i] = se_uf(lab("U%", i), 10, x); } } }
  }
};
struct SBC : FlowBC<freal> {
  SBC(int tag, const IdealGasPhysics<freal>& p) : FlowBC<freal>(EXTRAPOLATION_BC, tag, p) {}
  void computeGhostState(const freal* const a, const freal* const n, freal* const __restrict g) const {
    double x[7] = {a[0],a[1],a[2],a[3],n[0],n[1],(double)btag}; for (int k = 0; k < 4; k++) g[k] = kind == 1 ? btag+(k+1)*a[k]*a[(k+1)%4]-n[0]*a[(k+2)%4] : se_uf(lab("B%", k), 7, x);
    if (posbc && kind != 1) { double y[4] = {1+g[0]*g[0], g[1], g[2], 1+g[3]*g[3]}; cons(y, gasg, g); } }
  void computeGhostStateAndJacobian(const freal* const a, const freal* const n, freal* const __restrict g, freal* const __restrict J) const {
    computeGhostState(a, n, g); double x[7] = {a[0],a[1],a[2],a[3],n[0],n[1],(double)btag}; for (int i = 0; i < 16; i++) J[i] = kind == 1 ? 0 : se_uf(lab("BJ%", i), 7, x);
    if (kind == 1) for (int k = 0; k < 4; k++) { J[k*4+k] += (k+1)*a[(k+1)%4]; J[k*4+(k+1)%4] += (k+1)*a[k]; J[k*4+(k+2)%4] -= n[0]; } }
};
static void setup(Gen& g, bool sym) { long nx = se_param("nx", 2), ny = se_param("ny", 1); long ns = 1; for (int i = 0; i < nx*ny; i++) ns *= 3; long sc = se_choose("split", 0, ns-1), pat = se_choose("pat", 0, se_param("npat", 1)); g.make(nx, ny, sc, pat, sym, true); g.nbtag = 1; g.ndtag = 0; for (int i = 0; i < g.nb; i++) g.btag[i][0] = 1+i%3; }
static UMesh<freal,2> finish(const Gen& g) { UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); return m; }
static void add_bcs(FlowPhysicsConfig& p, BCType t = EXTRAPOLATION_BC) { for (int i = 1; i <= 3; i++) p.bcconf.push_back(bc_conf(i, t)); }
// a reconstruction that needs the gradients of all neighbouring cells, as WENO does, but linear
struct SRec : SolutionReconstruction<freal,NVARS> {
  SRec(const UMesh<freal,2>* m, const freal* r, const freal* rb, const amat::Array2d<freal>& g) : SolutionReconstruction<freal,NVARS>(m, r, rb, g) {}
  void compute_face_values(const MVector<freal>& u, const amat::Array2dView<freal> ug, const freal* const grads, amat::Array2dMutableView<freal> ufl, amat::Array2dMutableView<freal> ufr) const override {
    for (fint i = 0; i < m->gnelem(); i++) for (int v = 0; v < NVARS; v++) { double a[2] = {2*grads[8*i+2*v], 2*grads[8*i+2*v+1]};
      for (int k = 0; k < m->gnfael(i); k++) { fint j = m->gesuel(i,k); if (j < m->gnelem()+m->gnConnFace()) for (int d = 0; d < 2; d++) a[d] += grads[8*j+2*v+d]; }
      for (int k = 0; k < m->gnfael(i); k++) { fint f = m->gelemface(i,k); double x = u(i,v); for (int d = 0; d < 2; d++) x += a[d]*(gr(f,d)-ri[2*i+d]); if (i == m->gintfac(f,0)) ufl(f,v) = x; else ufr(f,v) = x; } }
  }
};
// put the stub flux, linearisation and boundary conditions into a real spatial discretisation
template<class FV> static void stub(FV& fv, bool bcs = true) {
  *const_cast<const InviscidFlux<freal>**>(&fv.inviflux) = new SFlux(&fv.physics); *const_cast<const InviscidFlux<freal>**>(&fv.jiflux) = new SFlux(&fv.jphy);
  if (se_param("srec", 0)) *const_cast<const SolutionReconstruction<freal,NVARS>**>(&fv.lim) = new SRec(fv.lim->m, fv.lim->ri, fv.lim->ribp, fv.lim->gr);
  if (bcs) { auto& b = const_cast<std::map<int,const FlowBC<freal>*>&>(fv.bcs); for (auto it = b.begin(); it != b.end(); ++it) it->second = new SBC(it->first, fv.physics); }
}
static Gas con_gas() { Gas s; s.g = 1.375; s.Minf = 0.5; s.Tinf = 256; s.Reinf = 128; s.Pr = 0.75; s.aoa = 0; return s; }
static Vec make_u(const UMesh<freal,2>& m, bool par) { // symbolic state (rho=a^2, v, c) of each cell, by global cell number
  Vec v; createGhostedSystemVector(&m, 4, &v); double* a = pm_vec(v); for (int c = 0; c < m.gnelem(); c++) { int G = m.gglobalElemIndex(c); if (par) { double x[4] = {se_pos(lab("a%", G)), se_real(lab("vx%", G)), se_real(lab("vy%", G)), se_pos(lab("c%", G))}; cons(x, gasg, a+4*c); } else { a[4*c] = se_pos(lab("r%", G)); for (int k = 1; k < 4; k++) a[4*c+k] = se_real(lab("u%_%", G, k)); } }
  VecGhostUpdateBegin(v, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v, INSERT_VALUES, SCATTER_FORWARD); return v; }
static Vec make_r(const UMesh<freal,2>& m, const char* nm, int n) { Vec v; createSystemVector(&m, n, &v); double* a = pm_vec(v); for (int i = 0; i < m.gnelem()*n; i++) a[i] = se_real(lab(nm, i)); return v; }
static void globals(UMesh<freal,2>& m) { m.globalElemIndex.resize(m.gnelem()); for (int i = 0; i < m.gnelem(); i++) m.globalElemIndex[i] = i; }
// what the residual must be, from the face states: res -= len*F for the left cell, += for the right cell
template<class FV> static void expect_residual(const FV& fv, const UMesh<freal,2>& m, const double* ul, const double* ur, const double* u, const double* ubg, const double* grads, const Gas& s, bool visc, bool o2, double* r) {
  SFlux F(&fv.physics);
  for (int f = 0; f < m.gnaface(); f++) {
    auto n = m.gnormal(f); double len = m.gfacemetric(f,2), fl[4]; F.get_flux(ul+4*f, ur+4*f, &n[0], fl); const int l = m.gintfac(f,0), q = m.gintfac(f,1); const bool phy = f >= m.gPhyBFaceStart() && f < m.gPhyBFaceEnd();
    if (visc) { double wl[4], wr[4], rl[2] = {0,0}, rr[2], gf[2][4], fc[2] = {0,0}; for (int d = 0; d < 2; d++) { for (int k = 0; k < m.gnnode(l); k++) rl[d] += m.gcoords(m.ginpoel(l,k),d)/m.gnnode(l); for (int k = 0; k < 2; k++) fc[d] += 0.5*m.gcoords(m.gintfac(f,2+k),d); }
      if (phy) for (int d = 0; d < 2; d++) rr[d] = 2*fc[d]-rl[d]; else for (int d = 0; d < 2; d++) rr[d] = pm_vec(fv.rcvec)[2*q+d];
      const double *Ul = u+4*l, *Ur = phy ? ubg+4*(f-m.gPhyBFaceStart()) : u+4*q; GradBlock_t<freal,NDIM,NVARS> Gl, Gr; for (int d = 0; d < 2; d++) for (int v = 0; v < 4; v++) { Gl(d,v) = grads ? grads[8*l+2*v+d] : 0; Gr(d,v) = grads ? grads[8*(phy ? l : q)+2*v+d] : 0; }
      double vf[4]; fv.compute_viscous_flux(&n[0], rl, rr, Ul, Ur, Gl, Gr, ul+4*f, ur+4*f, vf); for (int k = 0; k < 4; k++) fl[k] += vf[k]; (void)wl; (void)wr; (void)gf; }
    for (int k = 0; k < 4; k++) { r[4*l+k] -= len*fl[k]; if (q < m.gnelem()) r[4*q+k] += len*fl[k]; }
  }
}
template<class FV> static void residual1(Gen& g, bool visc, const Gas& s, bool cv) {
  UMesh<freal,2> m = finish(g); globals(m); FlowPhysicsConfig pc = phys_conf(s, visc, cv); add_bcs(pc); FlowNumericsConfig nc = num_conf("HLLC", "HLLC", "NONE", "NONE", false); FV fv(&m, pc, nc); stub(fv);
  Vec u = make_u(m, visc), r = make_r(m, "r0_%", 4), dt = make_r(m, "dt%", 1); double ex[96], ul[160], ur[160]; const double* U = pm_vec(u); SBC bc[4] = {SBC(0, fv.physics), SBC(1, fv.physics), SBC(2, fv.physics), SBC(3, fv.physics)};
  for (int i = 0; i < 4*m.gnelem(); i++) ex[i] = pm_vec(r)[i];
  for (int f = 0; f < m.gnaface(); f++) { auto n = m.gnormal(f); for (int k = 0; k < 4; k++) ul[4*f+k] = U[4*m.gintfac(f,0)+k]; if (m.gintfac(f,1) < m.gnelem()) for (int k = 0; k < 4; k++) ur[4*f+k] = U[4*m.gintfac(f,1)+k]; else bc[g.btag[f-m.gPhyBFaceStart()][0]].computeGhostState(ul+4*f, &n[0], ur+4*f); }
  int e = fv.compute_residual(u, r, false, dt); se_assert(e == 0, "no error"); expect_residual(fv, m, ul, ur, U, ur+4*m.gPhyBFaceStart(), nullptr, s, visc, false, ex);
  for (int i = 0; i < 4*m.gnelem(); i++) se_assert_eq(pm_vec(r)[i], ex[i], "residual is the sum of the outward face fluxes");
  for (int i = 0; i < m.gnelem(); i++) se_assert_eq(pm_vec(dt)[i], se_real(lab("dt%", i)), "time steps untouched when not requested");
  se_observe(pm_vec(r)[0], "r0"); VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt);
}
extern "C" void harness_residual() {
  Gen g; setup(g, se_param("sym", 1)); kind = 0; bool visc = se_param("visc", 0); Gas s = con_gas(); gasg = s.g; posbc = visc; 
  if (se_param("cv", 1)) residual1<FlowFV<freal,false,true>>(g, visc, s, true); else residual1<FlowFV<freal,false,false>>(g, visc, s, false);
}
static const char* const GR[3] = {"NONE", "GREENGAUSS", "LEASTSQUARES"}; static const char* const RC[5] = {"NONE", "WENO", "VANALBADA", "BARTHJESPERSEN", "VENKATAKRISHNAN"};
// second order: fluxes of the reconstructed states, reconstruction of the primitive variables with the boundary ghost states
template<class FV> static void residual2(Gen& g, bool visc, const Gas& s, bool cv) {
  UMesh<freal,2> m = finish(g); globals(m); FlowPhysicsConfig pc = phys_conf(s, visc, cv); add_bcs(pc); FlowNumericsConfig nc = num_conf("HLLC", "HLLC", GR[se_param("grad", 2)], RC[se_param("rec", 0)], true, 1.0); FV fv(&m, pc, nc); stub(fv);
  Vec u = make_u(m, true), r = make_r(m, "r0_%", 4), dt = make_r(m, "dt%", 1); double ex[96]; const double* U = pm_vec(u); SBC bc[4] = {SBC(0, fv.physics), SBC(1, fv.physics), SBC(2, fv.physics), SBC(3, fv.physics)}; const int nb = m.gnbface(), nf = m.gnaface(), ne = m.gnelem();
  for (int i = 0; i < 4*ne; i++) ex[i] = pm_vec(r)[i];
  amat::Array2d<freal> ub(nb, 4), ubp(nb, 4), L(nf, 4), R(nf, 4); MVector<freal> up(ne, 4); 
  for (int c = 0; c < ne; c++) fv.physics.getPrimitiveFromConserved(U+4*c, &up(c,0));
  for (int b = 0; b < nb; b++) { int f = m.gPhyBFaceStart()+b; auto n = m.gnormal(f); bc[g.btag[b][0]].computeGhostState(U+4*m.gintfac(f,0), &n[0], &ub(b,0)); fv.physics.getPrimitiveFromConserved(&ub(b,0), &ubp(b,0)); }
  std::vector<freal> gr(8*ne); fv.gradcomp->compute_gradients(amat::Array2dView<freal>(&up(0,0), ne, 4), amat::Array2dView<freal>(&ubp(0,0), nb, 4), &gr[0]);
  for (int f = 0; f < nf; f++) for (int k = 0; k < 4; k++) { L(f,k) = U[4*m.gintfac(f,0)+k]; R(f,k) = 0; } for (int b = 0; b < nb; b++) for (int k = 0; k < 4; k++) R(m.gPhyBFaceStart()+b,k) = ubp(b,k);
  { amat::Array2dMutableView<freal> lv(&L(0,0), nf, 4), rv(&R(0,0), nf, 4); fv.lim->compute_face_values(up, amat::Array2dView<freal>(&ubp(0,0), nb, 4), &gr[0], lv, rv); }
  for (int f = 0; f < nf; f++) { fv.physics.getConservedFromPrimitive(&L(f,0), &L(f,0)); if (m.gintfac(f,1) < ne) fv.physics.getConservedFromPrimitive(&R(f,0), &R(f,0)); else { auto n = m.gnormal(f); bc[g.btag[f-m.gPhyBFaceStart()][0]].computeGhostState(&L(f,0), &n[0], &R(f,0)); } }
  int e = fv.compute_residual(u, r, false, dt); se_assert(e == 0, "no error"); expect_residual(fv, m, &L(0,0), &R(0,0), U, &ub(0,0), &gr[0], s, visc, true, ex);
  for (int i = 0; i < 4*ne; i++) se_assert_eq(pm_vec(r)[i], ex[i], "residual is the sum of the fluxes of the reconstructed states");
  for (int i = 0; i < ne; i++) se_assert_eq(pm_vec(dt)[i], se_real(lab("dt%", i)), "time steps untouched when not requested");
  se_observe(pm_vec(r)[0], "r0"); VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt);
}
extern "C" void harness_residual2() {
  Gen g; setup(g, se_param("sym", 0)); kind = 0; bool visc = se_param("visc", 0); Gas s = con_gas(); gasg = s.g; posbc = visc;
  if (se_param("cv", 1)) residual2<FlowFV<freal,true,true>>(g, visc, s, true); else residual2<FlowFV<freal,true,false>>(g, visc, s, false);
}
template<class FV> static void freestream(Gen& g, bool visc, const Gas& s, bool o2, bool cv) {
  UMesh<freal,2> m = finish(g); globals(m); FlowPhysicsConfig pc = phys_conf(s, visc, cv); for (int i = 1; i <= 3; i++) pc.bcconf.push_back(bc_conf(i, i == 1 ? FARFIELD_BC : i == 2 ? EXTRAPOLATION_BC : INFLOW_OUTFLOW_BC)); if (!se_param("inout", 0)) pc.bcconf[2].bc_type = FARFIELD_BC;
  FlowNumericsConfig nc = num_conf("HLLC", "HLLC", GR[se_param("grad", 2)], RC[se_param("rec", 0)], o2, 1.0); FV fv(&m, pc, nc); stub(fv, false);
  Vec u, r; createGhostedSystemVector(&m, 4, &u); createSystemVector(&m, 4, &r); for (int i = 0; i < 4*m.gnelem(); i++) { pm_vec(u)[i] = fv.uinf[i%4]; pm_vec(r)[i] = 0; }
  int e = fv.compute_residual(u, r, false, NULL); se_assert(e == 0, "no error"); for (int i = 0; i < 4*m.gnelem(); i++) se_assert_eq(pm_vec(r)[i], 0, "free stream is preserved"); se_observe(pm_vec(r)[0], "r0"); VecDestroy(&u); VecDestroy(&r);
}
extern "C" void harness_freestream() {
  Gen g; setup(g, se_param("sym", 1)); kind = 2; Gas s; if (se_param("symgas", 1)) { s = sym_gas(); double ca, sa; s.aoa = se_range("aoa", -1.5, 1.5); (void)ca; (void)sa; } else { s = con_gas(); } gasg = s.g; bool visc = se_param("visc", 0), o2 = se_param("o2", 0), cv = se_param("cv", 1);
  if (o2) { if (cv) freestream<FlowFV<freal,true,true>>(g, visc, s, o2, cv); else freestream<FlowFV<freal,true,false>>(g, visc, s, o2, cv); } else { if (cv) freestream<FlowFV<freal,false,true>>(g, visc, s, o2, cv); else freestream<FlowFV<freal,false,false>>(g, visc, s, o2, cv); }
}
// several processes compute what one process computes
template<class FV> static void parallel(Gen& g, bool visc, const Gas& s, bool o2, bool cv) {
  const int nr = (int)se_param("ranks", 2); if (g.nc < nr) return; pm_begin_world(1); UMesh<freal,2> gm = finish(g); globals(gm); const int ne = g.nc; static double ref[96], rdt[24], got[96], gdt[24];
  FlowPhysicsConfig pc = phys_conf(s, visc, cv); add_bcs(pc); FlowNumericsConfig nc = num_conf("HLLC", "HLLC", GR[se_param("grad", 2)], RC[se_param("rec", 0)], o2, 1.0); const bool ts = se_param("dt", 0);
  { FV fv(&gm, pc, nc); stub(fv); Vec u = make_u(gm, o2 || visc || ts), r, dt; createSystemVector(&gm, 4, &r); createSystemVector(&gm, 1, &dt); fv.compute_residual(u, r, ts, dt); for (int i = 0; i < 4*ne; i++) ref[i] = pm_vec(r)[i]; for (int i = 0; i < ne; i++) rdt[i] = pm_vec(dt)[i]; }
  int seen[24]; for (int i = 0; i < ne; i++) seen[i] = 0; int per = (ne+nr-1)/nr; long rot = se_choose("assign", 0, se_param("nassign", 0)); int own[24]; for (int c = 0; c < ne; c++) own[c] = rot == 0 ? (c*nr)/ne : rot == 1 ? c%nr : (c/per+1)%nr;
  bool ok = pm_run_ranks(nr, [&](int rk) { int nown[24], k = 0; // contiguous global numbers per process, as the mesh reader arranges
    Part p(gm); p.elemdist.resize(ne); for (int c = 0; c < ne; c++) p.elemdist[c] = own[c]; UMesh<freal,2> m = p.restrictMeshToPartitions(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); (void)nown; (void)k;
    FV fv(&m, pc, nc); stub(fv); Vec u = make_u(m, o2 || visc || ts), r, dt; createSystemVector(&m, 4, &r); createSystemVector(&m, 1, &dt); int e = fv.compute_residual(u, r, ts, dt); se_assert(e == 0, "no error");
    for (int c = 0; c < m.gnelem(); c++) { int G = m.gglobalElemIndex(c); seen[G] = 1; gdt[G] = pm_vec(dt)[c]; for (int q = 0; q < 4; q++) got[4*G+q] = pm_vec(r)[4*c+q]; } });
  se_assert(ok, "all processes finish"); for (int c = 0; c < ne; c++) { se_assert_ieq(seen[c], 1, "each cell has a residual"); if (!seen[c]) continue; for (int q = 0; q < 4; q++) se_assert_eq(got[4*c+q], ref[4*c+q], "same residual on several processes"); if (ts) se_assert_eq(gdt[c], rdt[c], "same time step on several processes"); }
  se_observe(ref[0], "r0");
}
extern "C" void harness_parallel() {
  Gen g; setup(g, false); kind = 3; Gas s = con_gas(); gasg = s.g; bool visc = se_param("visc", 0), o2 = se_param("o2", 0), cv = se_param("cv", 1); posbc = visc || se_param("dt", 0);
  if (o2) parallel<FlowFV<freal,true,true>>(g, visc, s, o2, cv); else parallel<FlowFV<freal,false,true>>(g, visc, s, o2, cv);
}
extern "C" void harness_timestep() {
  Gen g; setup(g, se_param("sym", 0)); kind = 2; Gas s = con_gas(); gasg = s.g; const bool visc = se_param("visc", 0), cv = se_param("cv", 1); if (se_param("symgas", 0)) { s = sym_gas(); gasg = s.g; } UMesh<freal,2> m = finish(g); globals(m); FlowPhysicsConfig pc = phys_conf(s, visc, cv); add_bcs(pc, FARFIELD_BC); FlowNumericsConfig nc = num_conf("HLLC", "HLLC", "NONE", "NONE", false);
  const int nf = m.gnaface(), ne = m.gnelem(); double L[160], R[160], xl[160], xr[160], dt[24]; const bool cells = se_param("cells", 1);
  for (int f = 0; f < nf; f++) { int l = m.gintfac(f,0), r = m.gintfac(f,1); for (int side = 0; side < 2; side++) { int id = cells ? (side ? (r < ne ? r : 90) : l) : 2*f+side; double* x = (side ? xr : xl)+4*f; x[0] = se_pos(lab("a%", id)); x[1] = se_real(lab("vx%", id)); x[2] = se_real(lab("vy%", id)); x[3] = se_pos(lab("c%", id)); cons(x, s.g, (side ? R : L)+4*f); } }
  for (int c = 0; c < ne; c++) dt[c] = se_real(lab("junk%", c));
  auto run = [&](const auto& fv) { fv.compute_max_timestep(amat::Array2dView<freal>(L, nf, 4), amat::Array2dView<freal>(R, nf, 4), dt); };
  if (cv) { FlowFV<freal,false,true> fv(&m, pc, nc); run(fv); } else { FlowFV<freal,false,false> fv(&m, pc, nc); run(fv); }
  for (int c = 0; c < ne; c++) { double sum = 0; const double ar = g.area(c);
    for (int k = 0; k < m.gnfael(c); k++) { int f = m.gelemface(c,k); auto n = m.gnormal(f); double len = m.gfacemetric(f,2); const double* x = m.gintfac(f,0) == c ? xl+4*f : xr+4*f; double vn = x[1]*n[0]+x[2]*n[1]; sum += (std::fabs(vn)+x[3])*len;
      if (visc) { double rho = x[0]*x[0], mu = mu_law(s, x[3], cv), q = 4.0/(3*rho), w = s.g/rho; sum += (q > w ? q : w)*mu/s.Pr*len*len/ar; } }
    se_assert_eq(dt[c]*sum, ar, "time step is area over the integrated spectral radius"); se_assert_lt(0, sum, "positive spectral radius"); }
  se_observe(dt[0], "dt0");
}
// the time step routine is given the face states of the residual and stores one value per cell
extern "C" void harness_timestep_residual() {
  Gen g; setup(g, false); kind = 0; Gas s = con_gas(); gasg = s.g; UMesh<freal,2> m = finish(g); globals(m); FlowPhysicsConfig pc = phys_conf(s, false, true); add_bcs(pc, FARFIELD_BC); FlowNumericsConfig nc = num_conf("HLLC", "HLLC", "NONE", "NONE", false); FlowFV<freal,false,true> fv(&m, pc, nc); stub(fv, false); const int ne = m.gnelem(); double x[24][4];
  Vec u = make_u(m, true), r = make_r(m, "r0_%", 4), dt = make_r(m, "dt%", 1); for (int c = 0; c < ne; c++) { x[c][0] = se_pos(lab("a%", c)); x[c][1] = se_real(lab("vx%", c)); x[c][2] = se_real(lab("vy%", c)); x[c][3] = se_pos(lab("c%", c)); }
  fv.compute_residual(u, r, true, dt); for (int c = 0; c < ne; c++) { double sum = 0; for (int k = 0; k < m.gnfael(c); k++) { int f = m.gelemface(c,k); auto n = m.gnormal(f); double vn = x[c][1]*n[0]+x[c][2]*n[1]; sum += (std::fabs(vn)+x[c][3])*m.gfacemetric(f,2); } se_assert_eq(pm_vec(dt)[c]*sum, g.area(c), "stored time step"); } se_observe(pm_vec(dt)[0], "dt0"); VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt);
}
static double ent(Mat A, int r, int c, int i, int j);
#define AM(A) pm_mat(A)
PmMat* pm_mat(void*); void* pm_make_mat(int nb, int bs, bool world);
static double ent(Mat A, int r, int c, int i, int j) { PmMat* p = pm_mat(A); return p->a[((long)r*4+i)*(p->gbrows*4L)+c*4+j]; }
// the assembled matrix is the derivative of the negated residual routine (polynomial flux and boundary condition with exact derivatives); one column cell and variable at a time
template<class FV> static void assembly_deriv(Gen& g, bool visc, const Gas& s, bool cv) {
  UMesh<freal,2> m = finish(g); globals(m); FlowPhysicsConfig pc = phys_conf(s, visc, cv); add_bcs(pc); FlowNumericsConfig nc = num_conf("HLLC", "HLLC", "NONE", "NONE", false); FV fv(&m, pc, nc); stub(fv); const int ne = m.gnelem(); Mat A = (Mat)pm_make_mat(ne, 4, true); Vec u = make_u(m, visc); double* U = pm_vec(u);
  int e = fv.assemble_jacobian(u, A); se_assert(e == 0, "no error"); const int cc = (int)se_choose("column", 0, ne-1);
  double x[4], out[96], D[96*4], keep[4]; for (int k = 0; k < 4; k++) { keep[k] = U[4*cc+k]; x[k] = visc ? 0 : U[4*cc+k]; } if (visc) { x[0] = se_pos(lab("a%", cc)); x[1] = se_real(lab("vx%", cc)); x[2] = se_real(lab("vy%", cc)); x[3] = se_pos(lab("c%", cc)); }
  auto f = [&](const double* y, double* o) { double w[4]; if (visc) cons(y, s.g, w); for (int k = 0; k < 4; k++) U[4*cc+k] = visc ? w[k] : y[k]; Vec r; createSystemVector(&m, 4, &r); fv.compute_residual(u, r, false, NULL); for (int i = 0; i < 4*ne; i++) o[i] = -pm_vec(r)[i]; for (int i = 4*ne; i < 32; i++) o[i] = 0; VecDestroy(&r); for (int k = 0; k < 4; k++) U[4*cc+k] = keep[k]; };
  if (ne > 8) return; se_jacobian<4,32>(f, x, out, D); double Du[16], uu[4]; if (visc) { auto cs = [&](const double* y, double* o) { cons(y, s.g, o); }; se_jacobian<4,4>(cs, x, uu, Du); }
  for (int r = 0; r < ne; r++) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double a = ent(A, r, cc, i, j); if (visc) { a = 0; for (int q = 0; q < 4; q++) a += ent(A, r, cc, i, q)*Du[q*4+j]; } se_assert_eq(a, D[(4*r+i)*4+j], lab("matrix block (%,%) entry (%,%)", r == cc, m.gnelem() > 0, i, j)); }
  se_observe(ent(A, 0, cc, 0, 0), "A00"); VecDestroy(&u);
}
extern "C" void harness_assembly_derivative() { Gen g; setup(g, se_param("sym", 0)); kind = 1; Gas s = con_gas(); gasg = s.g; bool visc = se_param("visc", 0); assembly_deriv<FlowFV<freal,false,true>>(g, visc, s, true); }
// blocks for any flux linearisation and boundary linearisation
extern "C" void harness_assembly() {
  Gen g; setup(g, se_param("sym", 0)); kind = 0; Gas s = con_gas(); gasg = s.g; UMesh<freal,2> m = finish(g); globals(m); const bool visc = se_param("visc", 0); FlowPhysicsConfig pc = phys_conf(s, visc, true); add_bcs(pc); FlowNumericsConfig nc = num_conf("HLLC", "HLLC", "NONE", "NONE", false); typedef FlowFV<freal,false,true> FV; FV fv(&m, pc, nc); stub(fv);
  const int ne = m.gnelem(); Mat A = (Mat)pm_make_mat(ne, 4, true); Vec u = make_u(m, visc); const double* U = pm_vec(u); int e = fv.assemble_jacobian(u, A); se_assert(e == 0, "no error"); static double ex[24*24][16]; for (int i = 0; i < ne*ne; i++) for (int k = 0; k < 16; k++) ex[i][k] = 0; static bool nb[24*24]; for (int i = 0; i < ne*ne; i++) nb[i] = false; SFlux F(&fv.physics);
  for (int f = 0; f < m.gnaface(); f++) { auto n = m.gnormal(f); double len = m.gfacemetric(f,2), L[16], R[16], J[16], gs[4]; int l = m.gintfac(f,0), r = m.gintfac(f,1); nb[l*ne+l] = true;
    if (r < ne) { F.get_jacobian(U+4*l, U+4*r, &n[0], L, R); if (visc) fv.compute_viscous_flux_jacobian(f, U+4*l, U+4*r, L, R); nb[l*ne+r] = nb[r*ne+l] = nb[r*ne+r] = true; for (int k = 0; k < 16; k++) { ex[l*ne+l][k] -= len*L[k]; ex[l*ne+r][k] += len*R[k]; ex[r*ne+l][k] += len*L[k]; ex[r*ne+r][k] -= len*R[k]; } }
    else { SBC bc(g.btag[f-m.gPhyBFaceStart()][0], fv.physics); bc.computeGhostStateAndJacobian(U+4*l, &n[0], gs, J); F.get_jacobian(U+4*l, gs, &n[0], L, R); if (visc) fv.compute_viscous_flux_jacobian(f, U+4*l, gs, L, R); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double x = -L[i*4+j]; for (int q = 0; q < 4; q++) x += R[i*4+q]*J[q*4+j]; ex[l*ne+l][i*4+j] += len*x; } } }
  for (int r = 0; r < ne; r++) for (int c = 0; c < ne; c++) { if (!nb[r*ne+c]) se_assert(!pm_mat(A)->touched[r*ne+c], "only face neighbours are coupled"); for (int k = 0; k < 16; k++) se_assert_eq(ent(A, r, c, k/4, k%4), ex[r*ne+c][k], r == c ? "diagonal block" : "off-diagonal block"); }
  se_observe(ent(A, 0, 0, 0, 0), "A00"); VecDestroy(&u);
}
extern "C" void harness_assembly_parallel() {
  Gen g; setup(g, false); kind = 3; Gas s = con_gas(); gasg = s.g; const int nr = (int)se_param("ranks", 2), ne = g.nc; const bool visc = se_param("visc", 0); if (ne < nr) return; pm_begin_world(1); UMesh<freal,2> gm = finish(g); globals(gm); FlowPhysicsConfig pc = phys_conf(s, visc, true); add_bcs(pc); FlowNumericsConfig nc = num_conf("HLLC", "HLLC", "NONE", "NONE", false); typedef FlowFV<freal,false,true> FV; static double ref[96*96]; long N = 4*ne;
  { FV fv(&gm, pc, nc); stub(fv); Vec u = make_u(gm, visc); Mat A = (Mat)pm_make_mat(ne, 4, true); fv.assemble_jacobian(u, A); for (long i = 0; i < N*N; i++) ref[i] = pm_mat(A)->a[i]; }
  int seen[24]; for (int i = 0; i < ne; i++) seen[i] = 0;
  bool ok = pm_run_ranks(nr, [&](int) { Part p(gm); p.elemdist.resize(ne); for (int c = 0; c < ne; c++) p.elemdist[c] = (c*nr)/ne; UMesh<freal,2> m = p.restrictMeshToPartitions(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); FV fv(&m, pc, nc); stub(fv); Vec u = make_u(m, visc); Mat A = (Mat)pm_make_mat(ne, 4, true); int e = fv.assemble_jacobian(u, A); se_assert(e == 0, "no error");
    for (int c = 0; c < m.gnelem(); c++) { long G = m.gglobalElemIndex(c); seen[G] = 1; for (int i = 0; i < 4; i++) for (long j = 0; j < N; j++) se_assert_eq(pm_mat(A)->a[(4*G+i)*N+j], ref[(4*G+i)*N+j], "same matrix rows on several processes"); }
    for (int c = 0; c < ne; c++) { bool mine = false; for (int q = 0; q < m.gnelem(); q++) if (m.gglobalElemIndex(q) == c) mine = true; if (!mine) for (int d = 0; d < ne; d++) se_assert(!pm_mat(A)->touched[c*ne+d], "rows of other processes are left alone"); } });
  se_assert(ok, "all processes finish"); for (int c = 0; c < ne; c++) se_assert_ieq(seen[c], 1, "each row assembled"); se_observe(ref[0], "A00");
}
extern "C" void harness_ghost_centres() {
  Gen g; setup(g, true); UMesh<freal,2> m = finish(g); globals(m); struct S : Spatial<freal,1> { S(const UMesh<freal,2>* m) : Spatial<freal,1>(m) {} StatusCode compute_residual(const Vec, Vec, const bool, Vec) const { return 0; } void compute_local_jacobian_interior(const fint, const freal*, const freal*, Eigen::Matrix<freal,1,1,Eigen::RowMajor>&, Eigen::Matrix<freal,1,1,Eigen::RowMajor>&) const {} void compute_local_jacobian_boundary(const fint, const freal*, Eigen::Matrix<freal,1,1,Eigen::RowMajor>&) const {} void getGradients(const Vec, GradBlock_t<freal,NDIM,1>* const) const {} } s(&m);
  for (int c = 0; c < g.nc; c++) for (int d = 0; d < 2; d++) se_assert_eq(s.rch.getArray()[2*c+d], g.centre(c,d), "cell centre");
  for (int f = 0; f < m.gnaface(); f++) { int c = m.gintfac(f,0), k = m.getFaceEIndex(false, f, c), a = g.node(c,k), b = g.node(c,k+1); double mx = 0.5*(g.X[a]+g.X[b]), my = 0.5*(g.Y[a]+g.Y[b]); se_assert_eq(s.gr(f,0), mx, "face centre"); se_assert_eq(s.gr(f,1), my, "face centre");
    if (m.gintfac(f,1) >= g.nc) { int i = f-m.gPhyBFaceStart(); se_assert_eq(s.rcbp(i,0), 2*mx-g.centre(c,0), "ghost centre"); se_assert_eq(s.rcbp(i,1), 2*my-g.centre(c,1), "ghost centre"); se_assert_eq(s.rcbptr[2*i], s.rcbp(i,0), "ghost centre accessor"); } }
  se_observe(s.rcbp(0,0), "g0");
}
