// P07, P08: viscous face flux and its linearisation (real spatial/flow_spatial.cpp, physics/viscousphysics.cpp).
#include "flowfix.hpp"
struct Fix { Gen g; UMesh<freal,2>* m; };
static UMesh<freal,2> make_mesh(Gen& g) { g.make(1, 1, 1, 0, false); UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); return m; }
static FlowPhysicsConfig conf(const Gas& s, const Gen& g, bool cv) { FlowPhysicsConfig p = phys_conf(s, true, cv); for (int i = 0; i < g.nb; i++) p.bcconf.push_back(bc_conf((int)g.btag[i][0], EXTRAPOLATION_BC)); return p; }
struct St { double x[4], u[4]; };
static St state(const char* side, double g) { St s; Par p = make_par(side); for (int i = 0; i < 4; i++) s.x[i] = p.x[i]; cons(s.x, g, s.u); return s; }
static void prim2(const Gas& s, const double* x, double* w) { w[0] = x[0]*x[0]; w[1] = x[1]; w[2] = x[2]; w[3] = x[3]*x[3]*s.Minf*s.Minf; }
// Newton-Fourier flux from the definitions; grad[d] holds d/dx_d of (rho, vx, vy, T)
static void newton_fourier(const Gas& s, double mu, const double grad[2][4], const double* n, const double* v, double* f) {
  double div = grad[0][1]+grad[1][2], third = 2.0/3.0; double t[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) t[i][j] = mu*(grad[j][i+1]+grad[i][j+1]) - (i == j ? third*mu*div : 0.0);
  double cp = 1/((s.g-1)*s.Minf*s.Minf), k = mu*cp/s.Pr; f[0] = 0; f[3] = 0;
  for (int i = 0; i < 2; i++) { f[i+1] = -(t[i][0]*n[0]+t[i][1]*n[1]); f[3] -= (t[i][0]*v[0]+t[i][1]*v[1]+k*grad[i][3])*n[i]; }
}
extern "C" void harness_viscous_flux() {
  Gen g; UMesh<freal,2> m = make_mesh(g); Gas s = sym_gas(); const bool cv = se_param("cv", 1), o2 = se_param("o2", 1);
  St L = state("l", s.g), R = state("r", s.g), A = state("fl", s.g), B = state("fr", s.g); double n[2]; se_unit2("n", &n[0], &n[1]); double rl[2] = {se_real("xl"), se_real("yl")}, dr[2] = {se_real("dx"), se_real("dy")}; se_assume_lt(0, dr[0]*dr[0]+dr[1]*dr[1]); double rr[2] = {rl[0]+dr[0], rl[1]+dr[1]};
  GradBlock_t<freal,NDIM,NVARS> gl, gr; for (int d = 0; d < 2; d++) for (int v = 0; v < 4; v++) { gl(d,v) = se_real(lab("gl%_%", d, v)); gr(d,v) = se_real(lab("gr%_%", d, v)); }
  FlowPhysicsConfig pc = conf(s, g, cv); FlowNumericsConfig nc = num_conf("HLLC", "HLLC", "LEASTSQUARES", "NONE", o2);
  double f[4], b[4], z[4]; 
  auto run = [&](const auto& fv) { fv.compute_viscous_flux(n, rl, rr, L.u, R.u, gl, gr, A.u, B.u, f); double nn[2] = {-n[0], -n[1]}; fv.compute_viscous_flux(nn, rr, rl, R.u, L.u, gr, gl, B.u, A.u, b);
    GradBlock_t<freal,NDIM,NVARS> z0; for (int d = 0; d < 2; d++) for (int v = 0; v < 4; v++) z0(d,v) = 0; fv.compute_viscous_flux(n, rl, rr, L.u, L.u, z0, z0, L.u, L.u, z); };
  if (o2) { if (cv) { FlowFV<freal,true,true> fv(&m, pc, nc); run(fv); } else { FlowFV<freal,true,false> fv(&m, pc, nc); run(fv); } }
  else { if (cv) { FlowFV<freal,false,true> fv(&m, pc, nc); run(fv); } else { FlowFV<freal,false,false> fv(&m, pc, nc); run(fv); } }
  double wl[4], wr[4], grad[2][4], d2 = dr[0]*dr[0]+dr[1]*dr[1]; prim2(s, L.x, wl); prim2(s, R.x, wr);
  for (int v = 0; v < 4; v++) { double al[2], proj = 0; for (int d = 0; d < 2; d++) { double a, c; if (!o2) a = c = 0; else if (v < 3) { a = gl(d,v); c = gr(d,v); } else { double q = s.g*s.Minf*s.Minf, pl = pressure(L.x,s.g), pr = pressure(R.x,s.g); a = q*(gl(d,3)/wl[0]-pl*gl(d,0)/(wl[0]*wl[0])); c = q*(gr(d,3)/wr[0]-pr*gr(d,0)/(wr[0]*wr[0])); } al[d] = 0.5*(a+c); proj += al[d]*dr[d]; } for (int d = 0; d < 2; d++) grad[d][v] = al[d]+(wr[v]-wl[v]-proj)*dr[d]/d2; }
  double mu = cv ? 1/s.Reinf : 0.5*(mu_law(s, A.x[3], false)+mu_law(s, B.x[3], false)), va[2] = {0.5*(A.x[1]+B.x[1]), 0.5*(A.x[2]+B.x[2])}, e[4]; newton_fourier(s, mu, grad, n, va, e);
  for (int v = 0; v < 4; v++) { se_assert_eq(f[v], e[v], lab("viscous flux [%]", v)); se_assert_eq(b[v], -f[v], lab("viscous flux from the other side [%]", v)); se_assert_eq(z[v], 0, lab("no viscous flux in uniform flow [%]", v)); }
}
extern "C" void harness_stress() {
  Gas s = sym_gas(); IdealGasPhysics<freal> ph(s.g, s.Minf, s.Tinf, s.Reinf, s.Pr); double mu = se_pos("mu"), g[2][4], h[2][4], c[2][4], t[2][2], th[2][2], tc[2][2], k = se_real("k"), third = 2.0/3.0; for (int d = 0; d < 2; d++) for (int v = 0; v < 4; v++) { g[d][v] = se_real(lab("g%_%", d, v)); h[d][v] = se_real(lab("h%_%", d, v)); c[d][v] = k*g[d][v]+h[d][v]; }
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) t[i][j] = th[i][j] = tc[i][j] = 0;
  ph.getStressTensor(mu, g, t); ph.getStressTensor(mu, h, th); ph.getStressTensor(mu, c, tc); double div = g[0][1]+g[1][2];
  se_assert_eq(t[0][1], t[1][0], "stress is symmetric"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { se_assert_eq(t[i][j], mu*(g[j][i+1]+g[i][j+1])-(i == j ? third*mu*div : 0.0), lab("stress %%", i, j)); se_assert_eq(tc[i][j], k*t[i][j]+th[i][j], lab("stress is linear %%", i, j)); }
  // rigid rotation and pure expansion in three dimensions: no deviatoric stress from rotation
  double w = se_real("w"), r[2][4], tr[2][2]; for (int d = 0; d < 2; d++) for (int v = 0; v < 4; v++) r[d][v] = 0; r[1][1] = -w; r[0][2] = w; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) tr[i][j] = 0; ph.getStressTensor(mu, r, tr); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) se_assert_eq(tr[i][j], 0, "rigid rotation is stress free");
  double T = se_pos("rT"); T = T*T; double kk = 110.5/s.Tinf; se_assert_eq(ph.getViscosityCoeffFromTemperature(T), (1+kk)/(T+kk)*T*__builtin_sqrt(T)/s.Reinf, "Sutherland law"); se_assert_eq(ph.getConstantViscosityCoeff(), 1/s.Reinf, "constant viscosity");
  double u[4]; St a = state("", s.g); for (int i = 0; i < 4; i++) u[i] = a.u[i]; se_assert_eq(ph.getViscosityCoeffFromConserved(u), mu_law(s, a.x[3], false), "Sutherland law of a state"); se_assert_eq(ph.getThermalConductivityFromViscosity(mu), mu/((s.g-1)*s.Minf*s.Minf*s.Pr), "Fourier conductivity");
}
// one column of the two Jacobian blocks at a time (param col: 0-3 left, 4-7 right); param bnd: interior or boundary face
extern "C" void harness_viscous_jacobian() {
  Gen g; UMesh<freal,2> m = make_mesh(g); Gas s = sym_gas(); const bool cv = se_param("cv", 1); const int col = (int)se_param("col", 0), bnd = (int)se_param("bnd", 0), k = col % 4;
  FlowPhysicsConfig pc = conf(s, g, true); FlowNumericsConfig nc = num_conf("HLLC", "HLLC", "LEASTSQUARES", "NONE", false); FlowFV<freal,false,true> fc(&m, pc, nc); FlowFV<freal,false,false> fs(&m, pc, nc);
  const int f = bnd ? m.gPhyBFaceStart()+2 : m.gSubDomFaceStart(), l = m.gintfac(f,0), r = m.gintfac(f,1); double n[2] = {m.facemetric(f,0), m.facemetric(f,1)}; se_unit2("n", &n[0], &n[1]); m.facemetric(f,0) = n[0]; m.facemetric(f,1) = n[1];
  double rl[2] = {se_real("xl"), se_real("yl")}, rr[2] = {se_real("xr"), se_real("yr")}; se_assume_lt(0, (rr[0]-rl[0])*(rr[0]-rl[0])+(rr[1]-rl[1])*(rr[1]-rl[1]));
  for (int d = 0; d < 2; d++) { pm_vec(fc.rcvec)[2*l+d] = rl[d]; pm_vec(fs.rcvec)[2*l+d] = rl[d]; if (bnd) { fc.rcbp(f-m.gPhyBFaceStart(),d) = rr[d]; fs.rcbp(f-m.gPhyBFaceStart(),d) = rr[d]; } else { pm_vec(fc.rcvec)[2*r+d] = rr[d]; pm_vec(fs.rcvec)[2*r+d] = rr[d]; } }
  St L = state("l", s.g), R = state("r", s.g); double J0[16], J1[16], in0[16], in1[16]; for (int i = 0; i < 16; i++) { in0[i] = J0[i] = se_real(lab("i%", i)); in1[i] = J1[i] = se_real(lab("j%", i)); }
  if (cv) fc.compute_viscous_flux_jacobian(f, L.u, R.u, J0, J1); else fs.compute_viscous_flux_jacobian(f, L.u, R.u, J0, J1);
  const double* x = col < 4 ? L.x : R.x; double fl[4], D[16], u[4], Du[16]; GradBlock_t<freal,NDIM,NVARS> z; for (int d = 0; d < 2; d++) for (int v = 0; v < 4; v++) z(d,v) = 0; // derivative with respect to the parameters of the side's state, by the chain rule
  auto cs = [&](const double* y, double* o) { cons(y, s.g, o); }; se_jacobian<4,4>(cs, x, u, Du);
  auto flux = [&](const double* y, double* o) { double w[4]; cons(y, s.g, w); if (cv) fc.compute_viscous_flux(n, rl, rr, col < 4 ? w : L.u, col < 4 ? R.u : w, z, z, col < 4 ? w : L.u, col < 4 ? R.u : w, o); else fs.compute_viscous_flux(n, rl, rr, col < 4 ? w : L.u, col < 4 ? R.u : w, z, z, col < 4 ? w : L.u, col < 4 ? R.u : w, o); };
  auto fluxc = [&](const double* y, double* o) { double w[4]; cons(y, s.g, w); fc.compute_viscous_flux(n, rl, rr, col < 4 ? w : L.u, col < 4 ? R.u : w, z, z, col < 4 ? w : L.u, col < 4 ? R.u : w, o); };
  double sg = col < 4 ? -1.0 : 1.0; const double *J = col < 4 ? J0 : J1, *in = col < 4 ? in0 : in1; const bool exact = se_param("exact", 1);
  if (cv || exact) { se_jacobian<4,4>(flux, x, fl, D); for (int o = 0; o < 4; o++) { double lhs = 0; for (int q = 0; q < 4; q++) lhs += sg*(J[o*4+q]-in[o*4+q])*Du[q*4+k]; se_assert_eq(lhs, D[o*4+k], lab("viscous Jacobian row % parameter %", o, k)); } }
  else { // with the coded derivative of the viscosity: F = mu G(u)
    se_jacobian<4,4>(fluxc, x, fl, D); double mu = 0.5*(mu_law(s, L.x[3], false)+mu_law(s, R.x[3], false)), dm[4] = {0,0,0,0}; fs.jphy.getJacobianSutherlandViscosityWrtConserved(col < 4 ? L.u : R.u, dm);
    for (int o = 0; o < 4; o++) { double lhs = 0, dmu = 0; for (int q = 0; q < 4; q++) { lhs += sg*(J[o*4+q]-in[o*4+q])*Du[q*4+k]; dmu += 0.5*dm[q]*Du[q*4+k]; } se_assert_eq(lhs, s.Reinf*(mu*D[o*4+k]+dmu*fl[o]), lab("viscous Jacobian with the coded viscosity derivative, row % parameter %", o, k)); } }
}
