// P09, P10: boundary conditions
#include "gas.hpp"
#include "spatial/abc.hpp"
using namespace fvens; using namespace vf;
struct B { double g; Phys P; double n[2], uinf[4], aoa; Par p; double u[4], vn, vt, c, rho, pr; std::array<freal,NVARS> far;
  B() : g(gamma_()), P(g) { se_unit2("n",n,n+1); aoa = se_real("aoa"); far = P.ph.compute_freestream_state(aoa); p.x[0] = se_pos("a"); vn = se_real("vn"); vt = se_real("vt"); p.x[1] = vn*n[0]-vt*n[1]; p.x[2] = vn*n[1]+vt*n[0]; c = p.x[3] = se_pos("c"); cons(p.x,g,u); rho = u[0]; pr = pressure(p.x,g); }
  double T() { return P.Minf*P.Minf*c*c; } };
static void eq4(const double* a, const double* b, const char* w) { for (int i = 0; i < 4; i++) { Lab l = lab("% [%]",0,i); int k = 0; while (w[k]) { l.s[k] = w[k]; k++; } l.s[k++] = '['; l.s[k++] = '0'+i; l.s[k++] = ']'; l.s[k] = 0; se_assert_eq(a[i],b[i],l); } }
static FlowBC<double>* mk(long t, B& b, double v0, double v1) {
  switch (t) { case SLIP_WALL_BC: return new Slipwall<double>(3,b.P.ph); case FARFIELD_BC: return new Farfield<double>(3,b.P.ph,b.far); case INFLOW_OUTFLOW_BC: return new InOutFlow<double>(3,b.P.ph,b.far);
    case SUBSONIC_INFLOW_BC: return new InFlow<double>(3,b.P.ph,v0,v1); case EXTRAPOLATION_BC: return new Extrapolation<double>(3,b.P.ph); case ISOTHERMAL_WALL_BC: return new Isothermalwall2D<double>(3,b.P.ph,v0,v1); case ADIABATIC_WALL_BC: return new Adiabaticwall2D<double>(3,b.P.ph,v0);
    default: { std::array<freal,NDIM> w; w[0] = v0; w[1] = v1; return new Adiabaticwall<double>(3,b.P.ph,w); } }
}
static void region(B& b) { // normal Mach number at or between the branch points of the in/outflow condition
  long k = se_choose("region",0,4); double m = b.vn, c = b.c; if (k == 0) se_assume_lt(m,0); else if (k == 1) se_assume(m == 0); else if (k == 2) { se_assume_lt(0,m); se_assume_lt(m,c); } else if (k == 3) se_assume(m == c); else se_assume_lt(c,m); }
extern "C" {
void harness_wall_states() {
  B b; double g[4], e[4], v0 = se_real("v0"), v1 = se_real("v1"), w1 = se_pos("Tw"); const double* n = b.n;
  { FlowBC<double>* f = mk(SLIP_WALL_BC,b,0,0); f->computeGhostState(b.u,n,g); double q[4] = {b.p.x[0], -b.vn*n[0]-b.vt*n[1], -b.vn*n[1]+b.vt*n[0], b.c}; cons(q,b.g,e); eq4(g,e,"slip wall "); se_assert_ieq(f->bctag(),3,"tag");
    se_assert_eq((b.u[1]+g[1])*n[0]+(b.u[2]+g[2])*n[1],0,"slip wall: no mass crosses"); delete f; }
  { FlowBC<double>* f = mk(ADIABATIC_WALL_BC,b,v0,0); f->computeGhostState(b.u,n,g); // face velocity = wall velocity (tangential direction (n1,-n0)), no temperature or density difference other than kinetic
    se_assert_eq(g[0],b.rho,"adiabatic wall density"); se_assert_eq(0.5*(g[1]/g[0]+b.p.x[1]),v0*n[1],"adiabatic wall vx"); se_assert_eq(0.5*(g[2]/g[0]+b.p.x[2]),-v0*n[0],"adiabatic wall vy"); se_assert_eq(g[3],b.u[3],"adiabatic wall energy"); delete f; }
  { FlowBC<double>* f = mk(100,b,v0,v1); f->computeGhostState(b.u,n,g); se_assert_eq(g[0],b.rho,"moving adiabatic wall density"); se_assert_eq(0.5*(g[1]/g[0]+b.p.x[1]),v0,"moving adiabatic wall vx"); se_assert_eq(0.5*(g[2]/g[0]+b.p.x[2]),v1,"moving adiabatic wall vy"); se_assert_eq(g[3],b.u[3],"moving adiabatic wall energy"); delete f; }
  { FlowBC<double>* f = mk(ISOTHERMAL_WALL_BC,b,v0,w1); f->computeGhostState(b.u,n,g); se_assert_eq(0.5*(g[1]/g[0]+b.p.x[1]),v0*n[1],"isothermal wall vx"); se_assert_eq(0.5*(g[2]/g[0]+b.p.x[2]),-v0*n[0],"isothermal wall vy"); se_assert_eq(g[0],b.rho,"isothermal wall density");
    se_assert_eq(0.5*(b.P.ph.getTemperatureFromConserved(g)+b.T()),w1,"isothermal wall temperature"); delete f; }
  { FlowBC<double>* f = mk(EXTRAPOLATION_BC,b,0,0); f->computeGhostState(b.u,n,g); eq4(g,b.u,"extrapolation "); delete f; }
  { FlowBC<double>* f = mk(FARFIELD_BC,b,0,0); f->computeGhostState(b.u,n,g); double q[4] = {1, __builtin_cos(b.aoa), __builtin_sin(b.aoa), 1/b.P.Minf}; cons(q,b.g,e); eq4(g,e,"far field "); delete f; }
}
void harness_inoutflow() {
  B b; double g[4], e[4]; region(b); if (b.vn == 0 || b.vn == b.c) return; FlowBC<double>* f = mk(INFLOW_OUTFLOW_BC,b,0,0); f->computeGhostState(b.u,b.n,g);
  double q[4] = {1, __builtin_cos(b.aoa), __builtin_sin(b.aoa), 1/b.P.Minf};
  if (b.vn <= 0) { cons(q,b.g,e); eq4(g,e,"inflow: free stream "); }
  else if (b.vn < b.c) { se_assert_eq(g[0],b.u[0],"subsonic outflow density"); se_assert_eq(g[1],b.u[1],"subsonic outflow x"); se_assert_eq(g[2],b.u[2],"subsonic outflow y"); se_assert_eq(b.P.ph.getPressureFromConserved(g),1/(b.g*b.P.Minf*b.P.Minf),"subsonic outflow: free-stream pressure"); }
  else if (b.vn > b.c) eq4(g,b.u,"supersonic outflow ");
  delete f;
}
// total conditions and direction, for any subsonic interior state entering normally and any total conditions
void harness_inflow() {
  double g = gamma_(); Phys P(g); double n[2]; se_unit2("n",n,n+1); double V = se_pos("V"), c = se_pos("c"), p0 = se_pos("p0"), T0 = se_pos("T0"), u[4], gs[4]; double M2 = P.Minf*P.Minf; se_assume_lt(V,c);
  double q[4] = {se_pos("a"), -V*n[0], -V*n[1], c}; cons(q,g,u); InFlow<double> f(4,P.ph,p0,T0); f.computeGhostState(u,n,gs);
  double vx = gs[1]/gs[0], vy = gs[2]/gs[0], p = P.ph.getPressureFromConserved(gs), T = P.ph.getTemperatureFromConserved(gs);
  se_assert_eq(vx*n[1]-vy*n[0],0,"inflow: normal direction"); se_assert_lt(vx*n[0]+vy*n[1],0,"inflow: enters the domain"); se_assert_eq(T+0.5*(g-1)*M2*(vx*vx+vy*vy),T0,"inflow: total temperature");
  se_assert_eq(p, p0*__builtin_pow(T/T0,g/(g-1)), "inflow: total pressure"); se_assert_eq(T*(c*c+0.5*(g-1)*V*V), T0*c*c, "inflow: Mach number of the interior state");
}
// P10: ghost state and its linearisation
void harness_linearisation() {
  long t = se_param("type",0); B b; double v0 = se_real("v0"), v1 = t == ISOTHERMAL_WALL_BC ? se_pos("v1") : se_real("v1"), g[4], g2[4], J[16], D[16], gg[4], uu[4], du[16];
  if (t == INFLOW_OUTFLOW_BC) region(b);
  FlowBC<double>* f = mk(t,b,v0,v1); for (int i = 0; i < 16; i++) J[i] = se_real(lab("z%",i)); for (int i = 0; i < 4; i++) g[i] = g2[i] = -1;
  f->computeGhostState(b.u,b.n,g); f->computeGhostStateAndJacobian(b.u,b.n,g2,J); for (int i = 0; i < 4; i++) se_assert_eq(g2[i],g[i],lab("ghost state of residual and linearisation [%]",i));
  if (t == INFLOW_OUTFLOW_BC && (b.vn == 0 || b.vn == b.c)) return;
  double x[4] = {b.p.x[0],b.vn,b.vt,b.c}; auto st = [&](const double* y, double* o) { double z[4] = {y[0],y[1]*b.n[0]-y[2]*b.n[1],y[1]*b.n[1]+y[2]*b.n[0],y[3]}; cons(z,b.g,o); };
  auto gh = [&](const double* y, double* o) { double u[4]; st(y,u); f->computeGhostState(u,b.n,o); }; se_jacobian<4,4>(gh,x,gg,D); se_jacobian<4,4>(st,x,uu,du);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double v = 0; for (int k = 0; k < 4; k++) v += J[i*4+k]*du[k*4+j]; se_assert_eq(v,D[i*4+j],lab("ghost Jacobian row % parameter %",i,j)); }
  delete f;
}
// P10: boundary conditions created from the configuration
void harness_factory() {
  B b; long t0 = se_choose("t0",0,7), t1 = se_choose("t1",0,7); long tag0 = se_int("tag0",-5,1000), tag1 = se_int("tag1",-5,1000); se_assume(tag0 < tag1 || tag1 < tag0); if (t0 == PERIODIC_BC || t1 == PERIODIC_BC) return; if (t1 == t0 || t1 == (t0+3)%8) {} else return;
  std::vector<FlowBCConfig> cf(2); cf[0].bc_tag = tag0; cf[0].bc_type = (BCType)t0; cf[1].bc_tag = tag1; cf[1].bc_type = (BCType)t1; double v[4] = {se_real("w0"), se_pos("w1"), se_real("w2"), se_pos("w3")};
  cf[0].bc_vals = {v[0],v[1]}; cf[1].bc_vals = {v[2],v[3]}; auto m = create_const_flowBCs<double>(cf,b.P.ph,b.far); se_assert_ieq(m.size(),2,"one condition per tag");
  for (int k = 0; k < 2; k++) { long t = k ? t1 : t0, tag = k ? tag1 : tag0; auto it = m.find(tag); se_assert(it != m.end(),"tag present"); const FlowBC<double>* f = it->second; se_assert_ieq(f->bctag(),tag,"tag of the condition"); se_assert_ieq(f->bctype,t,"type of the condition"); if (t == SUBSONIC_INFLOW_BC || t == INFLOW_OUTFLOW_BC) continue;
    FlowBC<double>* h = mk(t,b,v[2*k],v[2*k+1]); double x[4], y[4]; f->computeGhostState(b.u,b.n,x); h->computeGhostState(b.u,b.n,y); eq4(x,y,"configured values "); }
}
}
