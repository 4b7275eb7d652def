// Small flow problems around the real FlowFV: mesh, configuration, object.
#pragma once
#include <map>
#include <set>
#include <list>
#include <memory>
#include <functional>
#include <algorithm>
#include "meshgen.hpp"
#include <Eigen/Core>
#include <boost/bimap.hpp>
#define private public
#define protected public
#include "spatial/flow_spatial.hpp"
#include "mesh/meshpartitioning.hpp"
#include "utilities/afactory.hpp"
#undef private
#undef protected
#include "spatial/abctypemap.hpp"
#include "linalg/alinalg.hpp"
#include "gas.hpp"
#include "petscmodel.hpp"
using namespace vf;
inline FlowBCConfig bc_conf(int tag, BCType t, double a = 0, double b = 0, double c = 0) { FlowBCConfig x; x.bc_tag = tag; x.bc_type = t; x.bc_vals.push_back(a); x.bc_vals.push_back(b); x.bc_vals.push_back(c); return x; }
struct Gas { double g, Minf, Tinf, Reinf, Pr, aoa; };
inline Gas sym_gas() { Gas s; s.g = gamma_(); s.Minf = se_pos("Minf"); s.Tinf = se_pos("Tinf"); s.Reinf = se_pos("Reinf"); s.Pr = se_pos("Pr"); s.aoa = 0; return s; }
inline FlowPhysicsConfig phys_conf(const Gas& s, bool visc, bool cvisc) { FlowPhysicsConfig p; p.gamma = s.g; p.Minf = s.Minf; p.Tinf = s.Tinf; p.Reinf = s.Reinf; p.Pr = s.Pr; p.aoa = s.aoa; p.viscous_sim = visc; p.const_visc = cvisc; return p; }
inline FlowNumericsConfig num_conf(const char* flux, const char* jac, const char* grad, const char* rec, bool o2, double lim = 1) { FlowNumericsConfig n; n.conv_numflux = flux; n.conv_numflux_jac = jac; n.gradientscheme = grad; n.reconstruction = rec; n.limiter_param = lim; n.order2 = o2; return n; }
inline double mu_law(const Gas& s, double c, bool cvisc) { // non-dimensional viscosity / Re from the sound speed: T = c^2 Minf^2
  if (cvisc) return 1/s.Reinf; double r = c*s.Minf, T = r*r, k = 110.5/s.Tinf; return (1+k)/(T+k)*T*r/s.Reinf; }
struct Part : ReplicatedGlobalMeshPartitioner { Part(const UMesh<freal,2>& g) : ReplicatedGlobalMeshPartitioner(g) {} void compute_partition() override {} };
