// Common symbolic gas states.  A state is given by a=sqrt(rho), velocity components and sound speed c
// (so that the square roots of gas dynamics are rational in the parameters); every physically valid state has this form.
#pragma once
#include "se.hpp"
#include "aconstants.hpp"
#include "physics/aphysics.hpp"
#include "spatial/anumericalflux.hpp"
namespace vf {
struct Par { double x[4]; };                       // a, vx, vy, c
inline Par make_par(const char* side) {
  Par p; char n[32]; auto nm = [&](const char* s) { int k = 0; for (const char* q = s; *q; q++) n[k++] = *q; for (const char* q = side; *q; q++) n[k++] = *q; n[k] = 0; return n; };
  p.x[0] = se_pos(nm("a")); p.x[1] = se_real(nm("vx")); p.x[2] = se_real(nm("vy")); p.x[3] = se_pos(nm("c")); return p;
}
inline double pressure(const double* x, double g) { return x[0]*x[0]*x[3]*x[3]/g; }
inline void cons(const double* x, double g, double* u) {
  double rho = x[0]*x[0]; u[0] = rho; u[1] = rho*x[1]; u[2] = rho*x[2]; u[3] = pressure(x,g)/(g-1) + 0.5*rho*(x[1]*x[1]+x[2]*x[2]);
}
// velocity given by its normal and tangential components with respect to the unit vector n
inline Par make_par_n(const char* side, const double* n, bool forAusmPlus = false, double g = 0) {
  Par p; char m[32]; auto nm = [&](const char* s) { int k = 0; for (const char* q = s; *q; q++) m[k++] = *q; for (const char* q = side; *q; q++) m[k++] = *q; m[k] = 0; return m; };
  p.x[0] = se_pos(nm("a")); double vn = se_real(nm("vn")), vt = se_real(nm("vt"));
  p.x[1] = vn*n[0]-vt*n[1]; p.x[2] = vn*n[1]+vt*n[0];
  if (!forAusmPlus) p.x[3] = se_pos(nm("c"));
  else { // critical sound speed as the parameter: c^2 = (g+1)/2 cs^2 - (g-1)/2 |v|^2
    double cs = se_pos(nm("cs")), c2 = 0.5*(g+1)*cs*cs - 0.5*(g-1)*(vn*vn+vt*vt); se_assume_lt(0, c2); p.x[3] = __builtin_sqrt(c2); }
  return p;
}
// analytical Euler flux
inline void euler(const double* x, double g, double nx, double ny, double* f) {
  double u[4]; cons(x,g,u); double vn = x[1]*nx+x[2]*ny, p = pressure(x,g);
  f[0] = u[0]*vn; f[1] = u[1]*vn+p*nx; f[2] = u[2]*vn+p*ny; f[3] = (u[3]+p)*vn;
}
inline double gamma_() { return 1.0 + se_pos("gm1"); }
struct Phys { double g, Minf, Tinf, Reinf, Pr; fvens::IdealGasPhysics<double> ph; Phys(double g_) : g(g_), Minf(se_pos("Minf")), Tinf(se_pos("Tinf")), Reinf(se_pos("Reinf")), Pr(se_pos("Pr")), ph(g,Minf,Tinf,Reinf,Pr) {} };
// Einfeldt signal speeds and the contact speed of HLLC, from the definitions
struct Waves { double sl, sm, sr, vr, cr; };
inline Waves waves(const double* l, const double* r, double g, const double* n) {
  Waves w; double R = r[0]/l[0], vl = l[1]*n[0]+l[2]*n[1], vr = r[1]*n[0]+r[2]*n[1];
  double vx = (R*r[1]+l[1])/(R+1), vy = (R*r[2]+l[2])/(R+1), hl = l[3]*l[3]/(g-1)+0.5*(l[1]*l[1]+l[2]*l[2]), hr = r[3]*r[3]/(g-1)+0.5*(r[1]*r[1]+r[2]*r[2]);
  w.vr = vx*n[0]+vy*n[1]; w.cr = __builtin_sqrt((g-1)*((R*hr+hl)/(R+1)-0.5*(vx*vx+vy*vy)));
  w.sl = vl-l[3]; if (w.sl > w.vr-w.cr) w.sl = w.vr-w.cr; w.sr = vr+r[3]; if (w.sr < w.vr+w.cr) w.sr = w.vr+w.cr;
  double rl = l[0]*l[0], rr = r[0]*r[0];
  w.sm = (rr*vr*(w.sr-vr)-rl*vl*(w.sl-vl)+pressure(l,g)-pressure(r,g))/(rr*(w.sr-vr)-rl*(w.sl-vl));
  return w;
}
enum { LLF = 0, VANLEER, AUSM, AUSMPLUS, ROE, HLL, HLLC };
static const char* const schemeName[] = {"LLF","VanLeer","AUSM","AUSM+","Roe","HLL","HLLC"};
inline fvens::InviscidFlux<double>* make_flux(long s, const fvens::IdealGasPhysics<double>* p) {
  using namespace fvens;
  switch (s) { case LLF: return new LocalLaxFriedrichsFlux<double>(p); case VANLEER: return new VanLeerFlux<double>(p); case AUSM: return new AUSMFlux<double>(p); case AUSMPLUS: return new AUSMPlusFlux<double>(p);
    case ROE: return new RoeFlux<double>(p); case HLL: return new HLLFlux<double>(p); default: return new HLLCFlux<double>(p); }
}
}
