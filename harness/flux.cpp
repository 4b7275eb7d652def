#include "gas.hpp"
using namespace fvens; using namespace vf;
static double sq(double x) { return x*x; }
// HLLC is only meaningful when its three waves are ordered (always so for g >= 1.2; can fail in extreme states as g -> 1).
// The four cases are the four positions of the face in the fan; exact ties (a wave speed equal to zero) are excluded.
static void ordered(const Par& p, const Par& q, double g, const double* n) {
  Waves w = waves(p.x,q.x,g,n); long k = se_choose("region",0,3);
  if (k == 0) { se_assume_lt(0,w.sl); se_assume_lt(0,w.sm); se_assume_lt(0,w.sr); } else if (k == 1) { se_assume_lt(w.sl,0); se_assume_lt(0,w.sm); se_assume_lt(0,w.sr); }
  else if (k == 2) { se_assume_lt(w.sl,0); se_assume_lt(w.sm,0); se_assume_lt(0,w.sr); } else { se_assume_lt(w.sl,0); se_assume_lt(w.sm,0); se_assume_lt(w.sr,0); }
}
// exact ties of the AUSM+ selections are excluded
static void noTies(const double* p, const double* q, double g, const double* n) {
  double vl = p[1]*n[0]+p[2]*n[1], vr = q[1]*n[0]+q[2]*n[1], k = 2*(g-1)/(g+1);
  double cl = __builtin_sqrt((p[3]*p[3]/(g-1)+0.5*(p[1]*p[1]+p[2]*p[2]))*k), cr = __builtin_sqrt((q[3]*q[3]/(g-1)+0.5*(q[1]*q[1]+q[2]*q[2]))*k);
  double hl = cl > vl ? cl : cl*cl/vl, hr = cr > -vr ? cr : -cr*cr/vr; se_assume(vl != 0); se_assume(vr != 0); se_assume(hl != hr);
}
extern "C" {
// P01: both states equal -> the analytical flux
void harness_consistency() {
  long s = se_param("scheme", 0); double g = gamma_(); Phys P(g); InviscidFlux<double>* F = make_flux(s, &P.ph);
  double n[2]; se_unit2("n", n, n+1); Par p = make_par_n("L", n, s == AUSMPLUS, g); double ul[4], ur[4], f[4], e[4]; cons(p.x,g,ul); cons(p.x,g,ur);
  F->get_flux(ul, ur, n, f); euler(p.x,g,n[0],n[1],e);
  for (int i = 0; i < 4; i++) se_assert_eq(f[i], e[i], lab("consistency flux[%]", i));
  delete F;
}
// P02: swapping the states and reversing the normal negates the flux
void harness_antisym() {
  long s = se_param("scheme", 0); double g = gamma_(); Phys P(g); InviscidFlux<double>* F = make_flux(s, &P.ph);
  double n[2], m[2]; se_unit2("n", n, n+1); m[0] = -n[0]; m[1] = -n[1];
  Par p = make_par_n("L", n, s == AUSMPLUS, g), q = make_par_n("R", n, s == AUSMPLUS, g); double ul[4], ur[4], f[4], e[4]; cons(p.x,g,ul); cons(q.x,g,ur);
  if (s == HLLC) ordered(p,q,g,n); if (s == AUSMPLUS) noTies(p.x,q.x,g,n);
  F->get_flux(ul, ur, n, f); F->get_flux(ur, ul, m, e);
  for (int i = 0; i < 4; i++) se_assert_eq(f[i], -e[i], lab("antisymmetry flux[%]", i));
  delete F;
}
// P02: rotation of the frame
void harness_rotation() {
  long s = se_param("scheme", 0); double g = gamma_(); Phys P(g); InviscidFlux<double>* F = make_flux(s, &P.ph);
  double n[2], m[2], c, d; se_unit2("n", n, n+1); se_unit2("r", &c, &d); m[0] = c*n[0]-d*n[1]; m[1] = d*n[0]+c*n[1];
  Par p = make_par_n("L", n, s == AUSMPLUS, g), q = make_par_n("R", n, s == AUSMPLUS, g); double ul[4], ur[4], f[4], e[4]; cons(p.x,g,ul); cons(q.x,g,ur);
  F->get_flux(ul, ur, n, f);
  double vl[4] = {ul[0], c*ul[1]-d*ul[2], d*ul[1]+c*ul[2], ul[3]}, vr[4] = {ur[0], c*ur[1]-d*ur[2], d*ur[1]+c*ur[2], ur[3]};
  F->get_flux(vl, vr, m, e);
  se_assert_eq(e[0], f[0], "rotation mass"); se_assert_eq(e[3], f[3], "rotation energy");
  se_assert_eq(e[1], c*f[1]-d*f[2], "rotation momentum x"); se_assert_eq(e[2], d*f[1]+c*f[2], "rotation momentum y");
  delete F;
}
// raw parameters of a face problem: a, vn, vt, c for the two sides
struct Raw { double x[8]; };
static Raw make_raw() { Raw r; r.x[0] = se_pos("aL"); r.x[1] = se_real("vnL"); r.x[2] = se_real("vtL"); r.x[3] = se_pos("cL"); r.x[4] = se_pos("aR"); r.x[5] = se_real("vnR"); r.x[6] = se_real("vtR"); r.x[7] = se_pos("cR"); return r; }
static void expand(const double* x, const double* n, double* p) { p[0] = x[0]; p[1] = x[1]*n[0]-x[2]*n[1]; p[2] = x[1]*n[1]+x[2]*n[0]; p[3] = x[3]; }
static void consRaw(const double* x, const double* n, double g, double* u) { double p[4]; expand(x,n,p); cons(p,g,u); }
// P03: supersonic on both sides (and, for the Roe-average based schemes, at the average) in the same direction
void harness_supersonic() {
  long s = se_param("scheme", 1), dir = se_param("dir", 1); double g = gamma_(); Phys P(g); InviscidFlux<double>* F = make_flux(s, &P.ph);
  double n[2]; se_unit2("n", n, n+1);
  Par p = make_par_n("L", n, s == AUSMPLUS, g), q = make_par_n("R", n, s == AUSMPLUS, g); double vl = (p.x[1]*n[0]+p.x[2]*n[1])*dir, vr = (q.x[1]*n[0]+q.x[2]*n[1])*dir;
  if (s == AUSMPLUS) { double k = 2*(g-1)/(g+1); // supersonic with respect to the critical sound speed
    double cl = __builtin_sqrt((p.x[3]*p.x[3]/(g-1)+0.5*(p.x[1]*p.x[1]+p.x[2]*p.x[2]))*k), cr = __builtin_sqrt((q.x[3]*q.x[3]/(g-1)+0.5*(q.x[1]*q.x[1]+q.x[2]*q.x[2]))*k);
    se_assume_lt(cl, vl); se_assume_lt(cr, vr); se_assume(cl*cl/vl != cr*cr/vr); }
  else { se_assume_lt(p.x[3], vl); se_assume_lt(q.x[3], vr); }
  if (s >= ROE) { Waves w = waves(p.x,q.x,g,n); se_assume_lt(w.cr*(1+1e-4), w.vr*dir); 
    if (s == HLLC) { if (dir > 0) { se_assume_lt(0,w.sl); } else { se_assume_lt(w.sr,0); se_assume_lt(w.sl,0); se_assume_lt(w.sm,0); } }
    if (s == HLL && dir < 0) { se_assume_lt(w.sr,0); se_assume_lt(w.sl,0); } if (s == HLL && dir > 0) { se_assume_lt(0,w.sl); se_assume_lt(0,w.sr); se_assume_lt(w.sl,w.sr); } }
  double ul[4], ur[4], f[4], e[4]; cons(p.x,g,ul); cons(q.x,g,ur); F->get_flux(ul, ur, n, f); euler(dir > 0 ? p.x : q.x,g,n[0],n[1],e);
  for (int i = 0; i < 4; i++) se_assert_eq(f[i], e[i], lab("supersonic flux[%]", i));
  delete F;
}
// P03: stationary contact (and shear) discontinuity: no normal velocity, equal pressure -> only the pressure force
void harness_contact() {
  long s = se_param("scheme", 2); double g = gamma_(); Phys P(g); InviscidFlux<double>* F = make_flux(s, &P.ph);
  double n[2]; se_unit2("n", n, n+1); double aL = se_pos("aL"), aR = se_pos("aR"), vtL = se_real("vtL"), vtR = se_real("vtR"), r = se_pos("r"), pr = r*r/g;
  double ul[4] = {aL*aL, -aL*aL*vtL*n[1], aL*aL*vtL*n[0], pr/(g-1)+0.5*aL*aL*vtL*vtL}, ur[4] = {aR*aR, -aR*aR*vtR*n[1], aR*aR*vtR*n[0], pr/(g-1)+0.5*aR*aR*vtR*vtR}, f[4];
  F->get_flux(ul, ur, n, f); double e[4] = {0, pr*n[0], pr*n[1], 0};
  for (int i = 0; i < 4; i++) se_assert_eq(f[i], e[i], lab("contact flux[%]", i));
  delete F;
}
// P06: -dfdl dul/dx + dfdr dur/dx = dF/dx for each of eight independent parameters x of the two states.
// chart 0: x = (a, vn, vt, c) of both sides.  chart 1 / 2: the Roe-averaged sound speed replaces cL / cR (its square is a rational function
// of the other parameters then), so that all square roots of the Roe average are rational.
static void chart_states(long chart, const double* x, const double* n, double g, double* ul, double* ur) {
  double cl2 = x[3]*x[3], cr2 = x[7]*x[7], R = x[4]/x[0], dv2 = (x[1]-x[5])*(x[1]-x[5])+(x[2]-x[6])*(x[2]-x[6]);
  if (chart == 1) cl2 = (R+1)*x[3]*x[3]-R*cr2-0.5*(g-1)*R/(R+1)*dv2;
  if (chart == 2) cr2 = ((R+1)*x[7]*x[7]-cl2-0.5*(g-1)*R/(R+1)*dv2)/R;
  for (int s = 0; s < 2; s++) { const double* y = x+4*s; double* u = s ? ur : ul; double rho = y[0]*y[0], c2 = s ? cr2 : cl2; u[0] = rho; u[1] = rho*(y[1]*n[0]-y[2]*n[1]); u[2] = rho*(y[1]*n[1]+y[2]*n[0]); u[3] = rho*c2/(g*(g-1))+0.5*rho*(y[1]*y[1]+y[2]*y[2]); }
}
static double c2of(const double* u, double g) { return g*(g-1)*(u[3]-0.5*(u[1]*u[1]+u[2]*u[2])/u[0])/u[0]; }
void harness_jacobian() {
  long s = se_param("scheme", ROE), col = se_param("col", 0), chart = se_param("chart", 0), br = se_param("branch", -1); double g = gamma_(); Phys P(g); InviscidFlux<double>* F = make_flux(s, &P.ph);
  double n[2]; se_unit2("n", n, n+1); Raw r = make_raw();
  double ul[4], ur[4], A[16], Bm[16]; for (int i = 0; i < 16; i++) A[i] = Bm[i] = 0;
  chart_states(chart,r.x,n,g,ul,ur);
  double R = r.x[4]/r.x[0], vb = (R*r.x[5]+r.x[1])/(R+1), ct;  // Roe-averaged normal velocity and sound speed
  double cl = r.x[3], cr = r.x[7];
  if (chart == 0) { double dv2 = (r.x[1]-r.x[5])*(r.x[1]-r.x[5])+(r.x[2]-r.x[6])*(r.x[2]-r.x[6]); ct = __builtin_sqrt((R*cr*cr+cl*cl)/(R+1)+0.5*(g-1)*R/((R+1)*(R+1))*dv2); }
  else if (chart == 1) { double c2 = c2of(ul,g); se_assume_lt(0,c2); ct = r.x[3]; cl = __builtin_sqrt(c2); } else { double c2 = c2of(ur,g); se_assume_lt(0,c2); ct = r.x[7]; cr = __builtin_sqrt(c2); }
  if (s == ROE && br >= 0) { // position relative to the waves (and to the entropy-fix bands)
    double d = 1e-4*ct, lo = vb-ct, hi = vb+ct;
    if (br == 0) { se_assume_lt(d,lo); } else if (br == 1) { se_assume_lt(lo,-d); se_assume_lt(d,vb); } else if (br == 2) { se_assume_lt(vb,-d); se_assume_lt(d,hi); } else if (br == 3) { se_assume_lt(hi,-d); }
    else if (br == 4) { se_assume_lt(-d,lo); se_assume_lt(lo,d); } else if (br == 5) { se_assume_lt(-d,vb); se_assume_lt(vb,d); } else { se_assume_lt(-d,hi); se_assume_lt(hi,d); }
  }
  if (s == HLLC) { // signal speeds from the side states (0) or the average (1)
    long kl = chart == 0 ? 0 : chart == 1 ? 1 : 0, kr = chart == 2 ? 1 : se_param("kr", 0); if (chart == 0) kr = 0;
    double sl, sr; if (kl) { se_assume_lt(vb-ct, r.x[1]-cl); sl = vb-ct; } else { se_assume_lt(r.x[1]-cl, vb-ct); sl = r.x[1]-cl; }
    if (kr) { se_assume_lt(r.x[5]+cr, vb+ct); sr = vb+ct; } else { se_assume_lt(vb+ct, r.x[5]+cr); sr = r.x[5]+cr; }
    double sm = (ur[0]*r.x[5]*(sr-r.x[5])-ul[0]*r.x[1]*(sl-r.x[1])+ul[0]*c2of(ul,g)/g-ur[0]*c2of(ur,g)/g)/(ur[0]*(sr-r.x[5])-ul[0]*(sl-r.x[1]));
    if (br == 0) { se_assume_lt(0,sl); se_assume_lt(0,sm); se_assume_lt(0,sr); } else if (br == 1) { se_assume_lt(sl,0); se_assume_lt(0,sm); se_assume_lt(0,sr); }
    else if (br == 2) { se_assume_lt(sl,0); se_assume_lt(sm,0); se_assume_lt(0,sr); } else { se_assume_lt(sl,0); se_assume_lt(sm,0); se_assume_lt(sr,0); }
  }
  F->get_jacobian(ul, ur, n, A, Bm);
  double f[4], D[4], uu[8], du[8];
  auto flux = [&](const double* t, double* o) { double x[8], vl[4], vr[4]; for (int i = 0; i < 8; i++) x[i] = r.x[i]; x[col] = t[0]; chart_states(chart,x,n,g,vl,vr); F->get_flux(vl,vr,n,o); };
  auto cs = [&](const double* t, double* o) { double x[8]; for (int i = 0; i < 8; i++) x[i] = r.x[i]; x[col] = t[0]; chart_states(chart,x,n,g,o,o+4); };
  se_jacobian<1,4>(flux, r.x+col, f, D); se_jacobian<1,8>(cs, r.x+col, uu, du);
  for (int i = 0; i < 4; i++) { double v = 0; for (int k = 0; k < 4; k++) v += Bm[i*4+k]*du[4+k]-A[i*4+k]*du[k]; se_assert_eq(v, D[i], lab("flux Jacobian row % parameter %", i, col)); }
  delete F;
}
// P06: frozen forms (LLF: spectral radius, HLL: signal speeds)
void harness_frozen() {
  long s = se_param("scheme", LLF), col = se_param("col", 0); double g = gamma_(); Phys P(g); InviscidFlux<double>* F = make_flux(s, &P.ph);
  double n[2]; se_unit2("n", n, n+1); Raw r = make_raw(); double pl[4], pq[4]; expand(r.x,n,pl); expand(r.x+4,n,pq);
  double ul[4], ur[4], A[16], Bm[16]; for (int i = 0; i < 16; i++) A[i] = Bm[i] = 0; cons(pl,g,ul); cons(pq,g,ur);
  double wl, wr, diff; // weights of the two one-sided fluxes and of the state difference
  if (s == LLF) { double el = fabs(r.x[1])+r.x[3], er = fabs(r.x[5])+r.x[7]; wl = wr = 0.5; diff = 0.5*(el >= er ? el : er); }
  else { Waves w = waves(pl,pq,g,n); double sl0 = w.sl > 0 ? 0 : w.sl, sr0 = w.sr > 0 ? 0 : w.sr; wr = (sr0-sl0)/(w.sr-w.sl); wl = 1-wr; diff = 0.5*(w.sr*fabs(w.sl)-w.sl*fabs(w.sr))/(w.sr-w.sl); }
  F->get_jacobian(ul, ur, n, A, Bm);
  bool left = col < 4; int c = left ? col : col-4; const double* J = left ? A : Bm;
  double f[4], D[4], uu[4], du[4]; const double* base = left ? r.x : r.x+4;
  auto ef = [&](const double* t, double* o) { double x[4], p[4]; for (int i = 0; i < 4; i++) x[i] = base[i]; x[c] = t[0]; expand(x,n,p); euler(p,g,n[0],n[1],o); };
  auto cs = [&](const double* t, double* o) { double x[4]; for (int i = 0; i < 4; i++) x[i] = base[i]; x[c] = t[0]; consRaw(x,n,g,o); };
  se_jacobian<1,4>(ef, base+c, f, D); se_jacobian<1,4>(cs, base+c, uu, du);
  for (int i = 0; i < 4; i++) { double v = 0; for (int k = 0; k < 4; k++) v += J[i*4+k]*du[k]; se_assert_eq(v, left ? -(wl*D[i]+diff*du[i]) : wr*D[i]-diff*du[i], lab("frozen flux Jacobian row % column %", i, col)); }
  delete F;
}
// P06: Jacobian of the projected analytical flux, and the analytical flux itself
void harness_euler_jacobian() {
  double g = gamma_(); Phys P(g); double n[2]; se_unit2("n", n, n+1); Par p = make_par("L"); double u[4], J[16], f[4], D[16], uu[4], du[16], h[4], h2[4], e[4];
  cons(p.x,g,u); P.ph.getJacobianDirectionalFluxWrtConserved(u,n,J); P.ph.getDirectionalFluxFromConserved(u,n,h); euler(p.x,g,n[0],n[1],e);
  P.ph.getDirectionalFlux(u,n,p.x[1]*n[0]+p.x[2]*n[1],pressure(p.x,g),h2);
  auto ef = [&](const double* x, double* o) { double v[4]; cons(x,g,v); P.ph.getDirectionalFluxFromConserved(v,n,o); }; auto cs = [&](const double* x, double* o) { cons(x,g,o); };
  se_jacobian<4,4>(ef, p.x, f, D); se_jacobian<4,4>(cs, p.x, uu, du);
  for (int i = 0; i < 4; i++) { se_assert_eq(h[i], e[i], lab("analytical flux[%]", i)); se_assert_eq(h2[i], e[i], lab("analytical flux from vn,p [%]", i)); for (int j = 0; j < 4; j++) { double v = 0; for (int k = 0; k < 4; k++) v += J[i*4+k]*du[k*4+j]; se_assert_eq(v, D[i*4+j], lab("analytical flux Jacobian row % parameter %", i, j)); } }
}
}
