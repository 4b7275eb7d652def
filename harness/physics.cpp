// P04, P05: ideal-gas relations and their derivatives.  A state is (a,vx,vy,c): rho=a^2, p=a^2c^2/g, T=Minf^2c^2.
#include "gas.hpp"
#include "physics/viscousphysics.hpp"
using namespace fvens; using namespace vf;
struct G { double g; Phys P; Par p; double rho, pr, E, T, H, v2, u[4]; const IdealGasPhysics<double>& ph;
  G(const char* s = "L") : g(gamma_()), P(g), p(make_par(s)), ph(P.ph) { rho = p.x[0]*p.x[0]; pr = rho*p.x[3]*p.x[3]/g; v2 = p.x[1]*p.x[1]+p.x[2]*p.x[2]; E = pr/(g-1)+0.5*rho*v2; T = P.Minf*P.Minf*p.x[3]*p.x[3]; H = (E+pr)/rho; u[0] = rho; u[1] = rho*p.x[1]; u[2] = rho*p.x[2]; u[3] = E; } };
extern "C" {
void harness_conversions() {
  G s; const auto& ph = s.ph; const double* v = s.p.x+1; double n[2] = {se_real("nx"), se_real("ny")}, M2 = s.P.Minf*s.P.Minf;
  double w[4], z[4], vv[2], vn, p, H;
  ph.getVarsFromConserved(s.u,n,vv,vn,p,H); se_assert_eq(vv[0],v[0],"vars vx"); se_assert_eq(vv[1],v[1],"vars vy"); se_assert_eq(vn,v[0]*n[0]+v[1]*n[1],"vars vn"); se_assert_eq(p,s.pr,"vars p"); se_assert_eq(H,s.H,"vars H");
  se_assert_eq(ph.getPressureFromConserved(s.u),s.pr,"pressure from conserved"); se_assert_eq(ph.getPressure(s.pr/(s.g-1)),s.pr,"pressure from internal energy");
  se_assert_eq(ph.getTemperature(s.rho,s.pr),s.T,"temperature"); se_assert_eq(ph.getTemperatureFromConserved(s.u),s.T,"temperature from conserved");
  se_assert_eq(ph.getSoundSpeed(s.rho,s.pr),s.p.x[3],"sound speed"); se_assert_eq(ph.getSoundSpeedFromConserved(s.u),s.p.x[3],"sound speed from conserved");
  se_assert_eq(ph.getEntropyFromConserved(s.u)*__builtin_pow(s.rho,s.g),s.pr,"entropy"); se_assert_eq(ph.getDensityFromPressureTemperature(s.pr,s.T),s.rho,"density from p,T");
  se_assert_eq(ph.getEnergyFromPressure(s.pr,s.rho,s.v2),s.E,"energy from pressure"); se_assert_eq(ph.getEnergyFromTemperature(s.T,s.rho,s.v2),s.E,"energy from temperature");
  double pv[4] = {s.rho,v[0],v[1],s.pr}, tv[4] = {s.rho,v[0],v[1],s.T};
  se_assert_eq(ph.getEnergyFromPrimitive(pv),s.E,"energy from primitive"); se_assert_eq(ph.getEnergyFromPrimitive2(tv),s.E,"energy from primitive-2"); se_assert_eq(ph.getTemperatureFromPrimitive(pv),s.T,"temperature from primitive");
  se_assert_eq(ph.getTemperature(1.0,ph.getFreestreamPressure()),1.0,"free-stream temperature is one"); se_assert_eq(ph.getFreestreamPressure()*s.g*M2,1.0,"free-stream pressure");
  for (int alias = 0; alias < 2; alias++) {
    for (int i = 0; i < 4; i++) { w[i] = s.u[i]; z[i] = -1; } ph.getPrimitiveFromConserved(w, alias ? w : z); for (int i = 0; i < 4; i++) se_assert_eq(alias ? w[i] : z[i],pv[i],lab("primitive from conserved [%] in place %",i,alias));
    for (int i = 0; i < 4; i++) { w[i] = s.u[i]; z[i] = -1; } ph.getPrimitive2FromConserved(w, alias ? w : z); for (int i = 0; i < 4; i++) se_assert_eq(alias ? w[i] : z[i],tv[i],lab("primitive-2 from conserved [%] in place %",i,alias));
    for (int i = 0; i < 4; i++) { w[i] = pv[i]; z[i] = -1; } ph.getConservedFromPrimitive(w, alias ? w : z); for (int i = 0; i < 4; i++) se_assert_eq(alias ? w[i] : z[i],s.u[i],lab("conserved from primitive [%] in place %",i,alias));
    for (int i = 0; i < 4; i++) w[i] = s.u[i]; ph.getPrimitiveFromConserved(w, w); ph.getConservedFromPrimitive(w, w); for (int i = 0; i < 4; i++) se_assert_eq(w[i],s.u[i],lab("round trip [%]",i));
  }
  double f[4]; ph.getDirectionalFlux(s.u,n,vn,s.pr,f); se_assert_eq(f[0],s.rho*vn,"flux mass"); se_assert_eq(f[1],s.u[1]*vn+s.pr*n[0],"flux x"); se_assert_eq(f[2],s.u[2]*vn+s.pr*n[1],"flux y"); se_assert_eq(f[3],s.rho*s.H*vn,"flux energy");
  ph.getDirectionalFluxFromConserved(s.u,n,f); se_assert_eq(f[0],s.rho*vn,"flux mass b"); se_assert_eq(f[1],s.u[1]*vn+s.pr*n[0],"flux x b"); se_assert_eq(f[2],s.u[2]*vn+s.pr*n[1],"flux y b"); se_assert_eq(f[3],s.rho*s.H*vn,"flux energy b");
}
// free stream: unit density, unit speed along the angle of attack, unit temperature
void harness_freestream() {
  double g = gamma_(); Phys P(g); double a = se_real("aoa"); std::array<freal,NVARS> u = P.ph.compute_freestream_state(a); double n[2] = {1,0};
  se_assert_eq(u[0],1,"free-stream density"); se_assert_eq(u[1],__builtin_cos(a),"free-stream vx"); se_assert_eq(u[2],__builtin_sin(a),"free-stream vy");
  se_assert_eq(P.ph.getTemperatureFromConserved(&u[0]),1,"free-stream temperature"); double c = P.ph.getSoundSpeedFromConserved(&u[0]); se_assert_eq(P.Minf*P.Minf*c*c,1,"free-stream Mach number"); se_assert_lt(0,c,"free-stream sound speed");
}
// exact pressure change of a finite update
void harness_delta_pressure() {
  G s; double q[4], d[4]; q[0] = se_pos("a2"); q[1] = se_real("vx2"); q[2] = se_real("vy2"); double p2 = se_real("p2"), r = q[0]*q[0];
  double u2[4] = {r, r*q[1], r*q[2], p2/(s.g-1)+0.5*r*(q[1]*q[1]+q[2]*q[2])}; for (int i = 0; i < 4; i++) d[i] = u2[i]-s.u[i];
  se_assert_eq(s.ph.getDeltaPressureFromConserved(s.u,d), p2-s.pr, "exact pressure change");
}
// spatial derivatives: the parameters have arbitrary derivatives da, dvx, dvy, dc
void harness_gradients() {
  G s; const auto& ph = s.ph; double da = se_real("da"), dv[2] = {se_real("dvx"), se_real("dvy")}, dc = se_real("dc"), M2 = s.P.Minf*s.P.Minf; const double* x = s.p.x;
  double drho = 2*x[0]*da, dp = (2*x[0]*da*x[3]*x[3]+2*s.rho*x[3]*dc)/s.g, dT = M2*2*x[3]*dc;
  double gu[4] = {drho, drho*x[1]+s.rho*dv[0], drho*x[2]+s.rho*dv[1], dp/(s.g-1)+0.5*drho*s.v2+s.rho*(x[1]*dv[0]+x[2]*dv[1])}, gp[4] = {drho,dv[0],dv[1],dp}, o[4], o2[4];
  se_assert_eq(ph.getGradPressureFromConservedAndGradConserved(s.u,gu),dp,"pressure gradient"); se_assert_eq(ph.getGradTemperature(s.rho,drho,s.pr,dp),dT,"temperature gradient");
  se_assert_eq(ph.getGradTemperatureFromConservedAndGradConserved(s.u,gu),dT,"temperature gradient from conserved"); se_assert_eq(ph.getGradTemperatureFromConservedAndGradPrimitive(s.u,gp),dT,"temperature gradient from primitive");
  ph.getGradPrimitive2FromConservedAndGradConserved(s.u,gu,o); for (int i = 0; i < 4; i++) o2[i] = gu[i]; ph.getGradPrimitive2FromConservedAndGradConserved(s.u,o2,o2);
  double e[4] = {drho,dv[0],dv[1],dT}; for (int i = 0; i < 4; i++) { se_assert_eq(o[i],e[i],lab("primitive-2 gradient [%]",i)); se_assert_eq(o2[i],e[i],lab("primitive-2 gradient in place [%]",i)); }
}
// left and right states and gradients used by the viscous flux, also in place
void harness_prim2_faces() {
  G s; double M2 = s.P.Minf*s.P.Minf; Par q = make_par("R"); double ur[4]; cons(q.x,s.g,ur); double rr = q.x[0]*q.x[0], pr = pressure(q.x,s.g); long inplace = se_choose("inplace",0,1);
  double dl[2][4], dr[2][4], gl[8], gr[8], ol[8], orr[8], tl[4], tr[4]; for (int j = 0; j < 8; j++) { gl[j] = se_real(lab("gl%",j)); gr[j] = se_real(lab("gr%",j)); ol[j] = gl[j]; orr[j] = gr[j]; }
  double xl[4], xr[4]; for (int i = 0; i < 4; i++) { xl[i] = s.u[i]; xr[i] = ur[i]; }
  if (inplace) getPrimitive2StatesAndGradients<double,NDIM,true>(s.ph,xl,xr,ol,orr,xl,xr,ol,orr); else { getPrimitive2StatesAndGradients<double,NDIM,true>(s.ph,s.u,ur,gl,gr,tl,tr,ol,orr); for (int i = 0; i < 4; i++) { xl[i] = tl[i]; xr[i] = tr[i]; } }
  double el[4] = {s.rho,s.p.x[1],s.p.x[2],s.T}, er[4] = {rr,q.x[1],q.x[2],M2*q.x[3]*q.x[3]};
  for (int i = 0; i < 4; i++) { se_assert_eq(xl[i],el[i],lab("left state [%]",i)); se_assert_eq(xr[i],er[i],lab("right state [%]",i)); }
  for (int j = 0; j < 2; j++) for (int i = 0; i < 4; i++) { double a = gl[j*4+i], b = gr[j*4+i]; if (i == 3) { a = s.g*M2*(a*s.rho-s.pr*gl[j*4])/(s.rho*s.rho); b = s.g*M2*(b*rr-pr*gr[j*4])/(rr*rr); } se_assert_eq(ol[j*4+i],a,lab("left gradient [%][%]",j,i)); se_assert_eq(orr[j*4+i],b,lab("right gradient [%][%]",j,i)); }
  double yl[4], yr[4]; getPrimitive2StatesAndGradients<double,NDIM,false>(s.ph,s.u,ur,nullptr,nullptr,yl,yr,nullptr,nullptr); for (int i = 0; i < 4; i++) { se_assert_eq(yl[i],el[i],lab("left state, first order [%]",i)); se_assert_eq(yr[i],er[i],lab("right state, first order [%]",i)); }
}
// P05: every derivative routine; "J . du/dx == d(quantity)/dx" for the four parameters x, incoming contents z are added to
#define DERIV(NAME, NO, CALL, QUANT, ACC) { double z_[NO*4], J_[NO*4], q_[NO], D_[NO*4]; for (int i = 0; i < NO*4; i++) { z_[i] = ACC ? se_real(lab("z%",i)) : 0; J_[i] = ACC ? z_[i] : se_real(lab("z%",i)); } { double* J = J_; CALL; } \
  auto q = [&](const double* x, double* o) { double u[4]; cons(x,g,u); QUANT; }; se_jacobian<4,NO>(q, s.p.x, q_, D_); \
  for (int o = 0; o < NO; o++) for (int j = 0; j < 4; j++) { double v_ = 0; for (int k = 0; k < 4; k++) v_ += (J_[o*4+k]-z_[o*4+k])*du[k*4+j]; se_assert_eq(v_, D_[o*4+j], lab(NAME " [%] parameter %", o, j)); } }
void harness_derivatives() {
  G s; const auto& ph = s.ph; double g = s.g, n[2] = {se_real("nx"), se_real("ny")}, uu[4], du[16], c = s.p.x[3], T = s.T; auto cs = [&](const double* x, double* o) { cons(x,g,o); }; se_jacobian<4,4>(cs, s.p.x, uu, du); const double* u0 = s.u;
  DERIV("vmag2", 1, ph.getJacobianVmag2WrtConserved(u0,J), o[0] = (u[1]*u[1]+u[2]*u[2])/(u[0]*u[0]), true)
  DERIV("pressure", 1, ph.getJacobianPressureWrtConserved(u0,J), o[0] = ph.getPressureFromConserved(u), false)
  DERIV("pressure from momentum", 1, ph.getJacobianPressureWrtConserved(u0,u0[1]*u0[1]+u0[2]*u0[2],J), o[0] = ph.getPressureFromConserved(u), false)
  DERIV("temperature", 1, ph.getJacobianTemperatureWrtConserved(u0,J), o[0] = ph.getTemperatureFromConserved(u), true)
  DERIV("sound speed", 1, ph.getJacobianSoundSpeedWrtConserved(u0,J), o[0] = ph.getSoundSpeedFromConserved(u), true)
  DERIV("normal Mach number", 1, ph.getJacobianMachNormalWrtConserved(u0,n,J), o[0] = (u[1]*n[0]+u[2]*n[1])/u[0]/ph.getSoundSpeedFromConserved(u), true)
  DERIV("primitive-2", 4, ph.getJacobianPrimitive2WrtConserved(u0,J), ph.getPrimitive2FromConserved(u,o), true)
  DERIV("flux", 4, ph.getJacobianDirectionalFluxWrtConserved(u0,n,J), ph.getDirectionalFluxFromConserved(u,n,o), false)
  { double z[20], r[20]; for (int i = 0; i < 20; i++) { z[i] = i < 8 ? 0 : i < 12 ? se_real(lab("y%",i)) : i < 16 ? 0 : se_real(lab("y%",i)); r[i] = z[i]; } // dv, dvn, dp, dH (dv is initialised to zero by all callers)
    ph.getJacobianVarsWrtConserved(u0,n,r,r+8,r+12,r+16); double q_[5], D_[20]; auto q = [&](const double* x, double* o) { double u[4], v[2], vn, p, H; cons(x,g,u); ph.getVarsFromConserved(u,n,v,vn,p,H); o[0] = v[0]; o[1] = v[1]; o[2] = vn; o[3] = p; o[4] = H; };
    se_jacobian<4,5>(q, s.p.x, q_, D_); for (int o = 0; o < 5; o++) for (int j = 0; j < 4; j++) { double v = 0; for (int k = 0; k < 4; k++) v += (r[o*4+k]-z[o*4+k])*du[k*4+j]; se_assert_eq(v, D_[o*4+j], lab("vars [%] parameter %", o, j)); } }
}
// derivatives of functions of already differentiated quantities, and of the transport coefficients
void harness_derivatives2() {
  G s; const auto& ph = s.ph; double g = s.g, uu[4], du[16], M2 = s.P.Minf*s.P.Minf; auto cs = [&](const double* x, double* o) { cons(x,g,o); }; se_jacobian<4,4>(cs, s.p.x, uu, du); const double* u0 = s.u;
  double dp[4], dT[4], dv2[4]; for (int i = 0; i < 4; i++) { dp[i] = se_real(lab("dp%",i)); dT[i] = se_real(lab("dT%",i)); dv2[i] = se_real(lab("dv%",i)); }
  double T = se_pos("T"), p = se_pos("p"), rho = s.rho, z[4], r[4]; 
  for (int i = 0; i < 4; i++) z[i] = r[i] = se_real(lab("z%",i)); ph.getJacobianDensityFromJacobiansPressureTemperature(p,T,dp,dT,r); for (int i = 0; i < 4; i++) se_assert_eq(r[i]-z[i], g*M2*(dp[i]/T-p*dT[i]/(T*T)), lab("density from p,T derivative [%]",i));
  for (int i = 0; i < 4; i++) r[i] = z[i]; ph.getJacobianEnergyFromJacobiansTemperatureVmag2(T,rho,s.v2,dT,dv2,r); for (int i = 0; i < 4; i++) { double k = 1/(g*(g-1)*M2); se_assert_eq(r[i]-z[i], rho*(k*dT[i]+0.5*dv2[i])+(i ? 0 : k*T+0.5*s.v2), lab("energy derivative [%]",i)); }
  for (int i = 0; i < 4; i++) r[i] = z[i]; ph.getJacobianTemperature(rho,p,dp,r); for (int i = 0; i < 4; i++) se_assert_eq(r[i]-z[i], g*M2*(dp[i]/rho-(i ? 0 : p/(rho*rho))), lab("temperature derivative from dp [%]",i));
  double dm[4], dk[4]; for (int i = 0; i < 4; i++) dm[i] = se_real(lab("dm%",i)); ph.getJacobianThermCondWrtConservedFromJacobianSutherViscWrtConserved(dm,dk); double mu = se_real("mu"), t = se_real("t");
  double fl[1] = {mu}, k0[1], dk0[1]; auto kf = [&](const double* m, double* o) { o[0] = ph.getThermalConductivityFromViscosity(m[0]); }; se_jacobian<1,1>(kf, fl, k0, dk0); for (int i = 0; i < 4; i++) se_assert_eq(dk[i], dk0[0]*dm[i], lab("conductivity derivative [%]",i));
  // stress: mu, grad depend on a parameter t with derivatives dmu, dgrad
  double gr[NDIM][NVARS], dg[NDIM][NVARS][NVARS], S[NDIM][NDIM], dS[NDIM][NDIM][NVARS]; for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) { gr[i][j] = se_real(lab("g%_%",i,j)); for (int k = 0; k < 4; k++) dg[i][j][k] = se_real(lab("dg%_%_%",i,j,k)); }
  for (int k = 0; k < 4; k++) { double tt[1] = {t}, S0[4], D[4]; auto sf = [&](const double* y, double* o) { double g2[NDIM][NVARS], q[NDIM][NDIM]; for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) g2[i][j] = gr[i][j]+y[0]*dg[i][j][k]; ph.getStressTensor(mu+y[0]*dm[k],g2,q); for (int i = 0; i < 4; i++) o[i] = q[i/2][i%2]; };
    { double g2[NDIM][NVARS]; for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) g2[i][j] = gr[i][j]+t*dg[i][j][k]; ph.getJacobianStress(mu+t*dm[k],dm,g2,dg,S,dS); } se_jacobian<1,4>(sf, tt, S0, D); for (int i = 0; i < 4; i++) { se_assert_eq(S[i/2][i%2], S0[i], lab("stress [%]",i)); se_assert_eq(dS[i/2][i%2][k], D[i], lab("stress derivative [%][%]",i,k)); } }
}
// Sutherland's law: general state, and at the free-stream temperature T=1
void harness_sutherland() {
  G s; const auto& ph = s.ph; double g = s.g, uu[4], du[16]; auto cs = [&](const double* x, double* o) { cons(x,g,o); }; se_jacobian<4,4>(cs, s.p.x, uu, du); const double* u0 = s.u;
  DERIV("Sutherland viscosity", 1, ph.getJacobianSutherlandViscosityWrtConserved(u0,J), o[0] = ph.getViscosityCoeffFromConserved(u), true)
}
void harness_sutherland_tinf() {
  double g = gamma_(); Phys P(g); Par p; p.x[0] = se_pos("a"); p.x[1] = se_real("vx"); p.x[2] = se_real("vy"); p.x[3] = 1/P.Minf; double u[4], d[4] = {0,0,0,0}, dT[4] = {0,0,0,0}; cons(p.x,g,u); P.ph.getJacobianSutherlandViscosityWrtConserved(u,d); P.ph.getJacobianTemperatureWrtConserved(u,dT);
  double k = P.ph.sC/P.Tinf, dm = (1+k)/P.Reinf*(1.5/(1+k)-1/((1+k)*(1+k))); // d(mu)/dT at T=1
  for (int i = 0; i < 4; i++) se_assert_eq(d[i], dm*dT[i], lab("Sutherland derivative at T=1 [%]",i));
  se_assert_eq(P.ph.getViscosityCoeffFromConserved(u), 1/P.Reinf, "viscosity at T=1");
}
}
