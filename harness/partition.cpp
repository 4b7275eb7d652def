// P15, P16: domain decomposition (real mesh/meshpartitioning.cpp) and trace exchange (real linalg/tracevector.cpp, VecGhost via alinalg).
#include <set>
#include <cstdio>
#include <scotch.h>
#include "meshgen.hpp"
#define private public
#define protected public
#include "mesh/meshpartitioning.hpp"
#include "linalg/tracevector.hpp"
#undef private
#undef protected
#include "linalg/alinalg.hpp"
#include "petscmodel.hpp"
struct Part : ReplicatedGlobalMeshPartitioner {
  Part(const UMesh<freal,2>& g) : ReplicatedGlobalMeshPartitioner(g) {}
  void compute_partition() override {}
};
static void setup(Gen& g, bool sym) { long nx = se_param("nx", 2), ny = se_param("ny", 1); long ns = 1; for (int i = 0; i < nx*ny; i++) ns *= 3; long sc = se_choose("split", 0, ns-1), pat = se_choose("pat", 0, se_param("npat", 2)); g.make(nx, ny, sc, pat, sym, true); g.nbtag = 1+(pat&1); g.ndtag = (int)(pat%3); }
static void assign(const Gen& g, int nr, int* own) { long mode = se_param("own", 0); for (int c = 0; c < g.nc; c++) own[c] = mode ? 0 : (int)se_choose(lab("own%", c), 0, nr-1); if (mode == 1) { Gen h = g; for (int c = 0; c < g.nc; c++) own[c] = h.rnd(nr); } else if (mode == 2) { for (int c = 0; c < g.nc; c++) own[c] = c % nr; } else if (mode == 3) { int k = g.nc/nr; for (int c = 0; c < g.nc; c++) own[c] = c/k < nr ? c/k : nr-1; } }
static int lfind(const UMesh<freal,2>& lm, int gc) { for (int i = 0; i < lm.gnelem(); i++) if (lm.gglobalElemIndex(i) == gc) return i; return -1; }
static void check_part(const Gen& g, const UMesh<freal,2>& gm, const int* own, int nr) {
  int tot = 0, d, l;
  for (int r = 0; r < nr; r++) {
    pm_begin_rank(r); Part p(gm); p.elemdist.resize(g.nc); int mine = 0; for (int c = 0; c < g.nc; c++) { p.elemdist[c] = own[c]; if (own[c] == r) mine++; }
    UMesh<freal,2> lm = p.restrictMeshToPartitions(); tot += lm.gnelem(); se_assert_ieq(lm.gnelem(), mine, "local number of cells"); se_assert_ieq(lm.gnelemglobal(), g.nc, "global number of cells"); se_assert_ieq(lm.gnpoinglobal(), g.np, "global number of points"); if (lm.gnelem() != mine) continue;
    bool used[36]; for (int i = 0; i < 36; i++) used[i] = false; int npu = 0, nbl = 0, ncl = 0;
    for (int c = 0; c < g.nc; c++) if (own[c] == r) { for (int k = 0; k < g.cnn[c]; k++) { if (!used[g.cn[c][k]]) npu++; used[g.cn[c][k]] = true; } }
    se_assert_ieq(lm.gnpoin(), npu, "local points are those of the local cells");
    for (int c = 0; c < g.nc; c++) if (own[c] == r) {
      int i = lfind(lm, c); se_assert(i >= 0, "owned cell present"); if (i < 0) continue; se_assert_ieq(lm.gnnode(i), g.cnn[c], "cell type"); se_assert_ieq(lm.gnfael(i), g.cnn[c], "cell faces"); for (int t = 0; t < g.ndtag; t++) se_assert_ieq(lm.vol_regions(i,t), g.vtag[c][t], "volume marker");
      for (int k = 0; k < g.cnn[c]; k++) { int ln = lm.ginpoel(i,k); se_assert(ln >= 0 && ln < lm.gnpoin(), "local node index in range"); for (int e = 0; e < k; e++) se_assert(lm.ginpoel(i,e) != ln, "distinct local nodes"); se_assert_eq(lm.gcoords(ln,0), g.X[g.cn[c][k]], "node x"); se_assert_eq(lm.gcoords(ln,1), g.Y[g.cn[c][k]], "node y"); }
    }
    // equal global nodes have equal local numbers
    for (int c = 0; c < g.nc; c++) for (int e = 0; e < g.nc; e++) if (own[c] == r && own[e] == r) { int i = lfind(lm, c), j = lfind(lm, e); for (int k = 0; k < g.cnn[c]; k++) for (int q = 0; q < g.cnn[e]; q++) se_assert((g.cn[c][k] == g.cn[e][q]) == (lm.ginpoel(i,k) == lm.ginpoel(j,q)), "shared nodes stay shared"); }
    for (int c = 0; c < g.nc; c++) if (own[c] == r) for (int k = 0; k < g.cnn[c]; k++) {
      int i = lfind(lm, c), a = lm.ginpoel(i,k), b = lm.ginpoel(i,(k+1)%g.cnn[c]), cf = 0, bf = 0, at = -1, ab = -1;
      for (int x = 0; x < lm.gnConnFace(); x++) if (lm.gconnface(x,0) == i && lm.gconnface(x,1) == k) { cf++; at = x; }
      for (int x = 0; x < lm.gnbface(); x++) if ((lm.gbface(x,0) == a && lm.gbface(x,1) == b)) { bf++; ab = x; }
      bool other = g.across(c, k, d, l) && own[d] != r, phys = !g.across(c, k, d, l);
      se_assert_ieq(cf, other ? 1 : 0, "connectivity face listed once per side"); se_assert_ieq(bf, phys ? 1 : 0, "physical boundary face on the owner of its cell");
      if (other) { g.across(c, k, d, l); ncl++; if (at >= 0) { se_assert_ieq(lm.gconnface(at,2), own[d], "other process"); se_assert_ieq(lm.gconnface(at,3), d, "other cell"); se_assert_ieq(lm.gconnface(at,4), gm.gelemface(c,k), "global face identifier"); se_assert_ieq(gm.gelemface(c,k), gm.gelemface(d,l), "common face identifier"); } }
      if (phys) { nbl++; int gb = g.bidx(g.node(c,k), g.node(c,k+1)); if (ab >= 0) for (int t = 0; t < g.nbtag; t++) se_assert_ieq(lm.gbface(ab,2+t), g.btag[gb][t], "boundary marker"); }
    }
    se_assert_ieq(lm.gnConnFace(), ncl, "no other connectivity faces"); se_assert_ieq(lm.gnbface(), nbl, "no other boundary faces");
    if (mine > 0) { lm.compute_topological(); se_assert_ieq(lm.gnaface(), lm.gnbface()+lm.gninface()+lm.gnConnFace(), "local face count"); se_observe(lm.gnaface(), "faces"); }
  }
  se_assert_ieq(tot, g.nc, "every cell in exactly one subdomain");
}
extern "C" void harness_partition() {
  Gen g; setup(g, true); if (se_param("symtags", 0)) g.symtags(); int nr = (int)se_param("ranks", 2); pm_begin_world(nr); int own[24]; if (g.nc < nr) return; assign(g, nr, own);
  UMesh<freal,2> gm(g.data()); gm.correctBoundaryFaceOrientation(); gm.compute_topological(); check_part(g, gm, own, nr);
}
extern "C" void harness_trivial() {
  Gen g; setup(g, false); UMesh<freal,2> gm(g.data()); gm.correctBoundaryFaceOrientation(); gm.compute_topological(); int nr = (int)se_choose("ranks", 1, g.nc < 4 ? g.nc : 4); pm_begin_world(nr);
  for (int r = 0; r < nr; r++) { pm_begin_rank(r); TrivialReplicatedGlobalMeshPartitioner p(gm); p.compute_partition(); se_assert_ieq(p.elemdist.size(), g.nc, "one process per cell"); int cnt[4] = {0,0,0,0}, prev = 0;
    for (int c = 0; c < g.nc; c++) { int o = p.elemdist[c]; se_assert(o >= 0 && o < nr, "process in range"); if (o < 0 || o >= nr) return; cnt[o]++; se_assert(o >= prev, "contiguous blocks"); prev = o; }
    for (int q = 0; q < nr; q++) se_assert(cnt[q] > 0, "no empty process"); }
  se_observe(nr, "ranks");
}
// the system matrix of a subdomain (real setupSystemMatrix): sizes, block size, preallocation
template<int nv> static void check_sysmat(const Gen& g, UMesh<freal,2>& lm) {
  Mat A; int e = setupSystemMatrix<nv>(&lm, &A); se_assert(e == 0, "no error"); const PmMat* p = pm_mat(A); se_assert_ieq(p->bs, nv, "one block row per cell"); se_assert_ieq(p->gbrows, g.nc, "global size"); se_assert_ieq(p->lrows, lm.gnelem()*nv, "local size");
  if (!p->grow) { se_assert(p->dnz && p->onz, "room for the couplings"); for (int c = 0; c < lm.gnelem(); c++) { int nl = 1, no = 0; for (int k = 0; k < lm.gnfael(c); k++) { int d = lm.gesuel(c,k); if (d < lm.gnelem()) nl++; else if (d < lm.gnelem()+lm.gnConnFace()) no++; } se_assert(p->dnz[c] >= nl && p->onz[c] >= no, "room for the couplings"); } }
}
extern "C" void harness_system_matrix() {
  Gen g; setup(g, false); int nr = (int)se_param("ranks", 2); if (g.nc < nr) return; pm_begin_world(nr); int own[24]; assign(g, nr, own);
  UMesh<freal,2> gm(g.data()); gm.correctBoundaryFaceOrientation(); gm.compute_topological();
  for (int r = 0; r < nr; r++) { pm_begin_rank(r); Part p(gm); p.elemdist.resize(g.nc); int mine = 0; for (int c = 0; c < g.nc; c++) { p.elemdist[c] = own[c]; if (own[c] == r) mine++; } if (!mine) continue; UMesh<freal,2> lm = p.restrictMeshToPartitions(); lm.compute_topological(); check_sysmat<1>(g, lm); check_sysmat<4>(g, lm); }
  se_observe(g.nc, "cells");
}
// SCOTCH: records the graph it is given and returns an arbitrary assignment
static int sg_n, sg_ptr[32], sg_adj[128], sg_m, sg_parts, sg_build = 0; static const int* sg_answer;
extern "C" {
SCOTCH_Graph* SCOTCH_graphAlloc() { return (SCOTCH_Graph*)malloc(sizeof(SCOTCH_Graph)); }
int SCOTCH_graphBuild(SCOTCH_Graph* const, const SCOTCH_Num base, const SCOTCH_Num n, const SCOTCH_Num* const v, const SCOTCH_Num* const ve, const SCOTCH_Num* const, const SCOTCH_Num* const, const SCOTCH_Num m, const SCOTCH_Num* const e, const SCOTCH_Num* const) { sg_build++; sg_n = n; sg_m = m; se_assert_ieq(base, 0, "graph numbering base"); for (int i = 0; i <= n; i++) sg_ptr[i] = v[i]; for (int i = 0; i < m; i++) sg_adj[i] = e[i]; return 0; }
int SCOTCH_graphCheck(const SCOTCH_Graph* const) { return 0; }
SCOTCH_Strat* SCOTCH_stratAlloc() { return (SCOTCH_Strat*)malloc(sizeof(SCOTCH_Strat)); }
int SCOTCH_stratInit(SCOTCH_Strat* const) { return 0; }
int SCOTCH_graphPart(SCOTCH_Graph* const, const SCOTCH_Num parts, SCOTCH_Strat* const, SCOTCH_Num* const out) { sg_parts = parts; for (int i = 0; i < sg_n; i++) out[i] = sg_answer[i]; return 0; }
void SCOTCH_graphExit(SCOTCH_Graph* const) {}
void SCOTCH_stratExit(SCOTCH_Strat* const) {}
void SCOTCH_memFree(void* const p) { free(p); }
}
extern "C" void harness_scotch() {
  Gen g; setup(g, false); int nr = (int)se_param("ranks", 2); int own[24]; if (g.nc < nr) return; assign(g, nr, own); UMesh<freal,2> gm(g.data()); gm.correctBoundaryFaceOrientation(); gm.compute_topological(); sg_answer = own; sg_build = 0; int got[4][24];
  bool ok = pm_run_ranks(nr, [&](int r) { ScotchRGMPartitioner p(gm); p.compute_partition(); for (int c = 0; c < g.nc; c++) got[r][c] = p.elemdist[c]; });
  se_assert(ok, "all processes finish"); se_assert(sg_build >= 1, "partitioner called"); se_assert_ieq(sg_n, g.nc, "graph vertices are cells"); se_assert_ieq(sg_parts, nr, "one part per process"); se_assert_ieq(sg_ptr[0], 0, "list start"); se_assert_ieq(sg_ptr[g.nc], sg_m, "list end"); int d, l;
  for (int c = 0; c < g.nc; c++) { int n = 0; for (int k = 0; k < g.cnn[c]; k++) if (g.across(c,k,d,l)) { int m = 0; for (int s = sg_ptr[c]; s < sg_ptr[c+1]; s++) if (sg_adj[s] == d) m++; se_assert_ieq(m, 1, "each neighbour once in the graph"); n++; } se_assert_ieq(sg_ptr[c+1]-sg_ptr[c], n, "no other graph edges"); }
  for (int r = 0; r < nr; r++) for (int c = 0; c < g.nc; c++) se_assert_ieq(got[r][c], own[c], "every process receives the computed partition"); se_observe(sg_m, "edges");
}
template<int nv> static void exchange(const Gen& g, const UMesh<freal,2>& gm, const int* own, int nr) {
  struct Rec { int n, lc[40], lk[40], gid[40]; double left[40][4], right[40][4], keepl[40][4]; }; Rec* rec = (Rec*)malloc(4*sizeof(Rec)); const int nround = (int)se_param("rounds", 2); int d, l;
  for (int round = 0; round < nround; round++) {
  bool ok = pm_run_ranks(nr, [&](int r) {
    Part p(gm); p.elemdist.resize(g.nc); for (int c = 0; c < g.nc; c++) p.elemdist[c] = own[c]; UMesh<freal,2> lm = p.restrictMeshToPartitions();
    if (se_param("permute", 1) && lm.gnConnFace() > 1) { Gen h = g; int q[40]; h.shuffle(q, lm.gnConnFace(), r > 0); amat::Array2d<fint> t = lm.connface; for (int i = 0; i < lm.gnConnFace(); i++) for (int k = 0; k < 5; k++) lm.connface(i,k) = t(q[i],k); }
    lm.compute_topological(); L2TraceVector<freal,nv> tv(lm); double *L = tv.getLocalArrayLeft(), *R = tv.getLocalArrayRight(); int s = lm.gConnBFaceStart();
    const L2TraceVector<freal,nv>& ct = tv; se_assert(lm.gnaface() == 0 || (ct.getLocalArrayLeft() == L && ct.getLocalArrayRight() == R && L != R), "accessors agree");
    for (int f = 0; f < lm.gnaface(); f++) for (int v = 0; v < nv; v++) { L[f*nv+v] = se_real(lab("L%_%_%", r, f, v)); R[f*nv+v] = se_real(lab("R%_%_%", r, f, v)); }
    for (int rep = 0; rep <= round; rep++) { if (rep) for (int f = 0; f < lm.gnaface(); f++) for (int v = 0; v < nv; v++) L[f*nv+v] = se_real(lab("S%_%_%", r, f, v)); tv.updateSharedFacesBegin(); if (round && rep == 0) for (int f = lm.gPhyBFaceStart(); f < lm.gPhyBFaceEnd(); f++) R[f*nv] = se_real(lab("R%_%_0", r, f)); tv.updateSharedFacesEnd(); }
    Rec& q = rec[r]; q.n = lm.gnConnFace();
    for (int i = 0; i < q.n; i++) { q.lc[i] = lm.gglobalElemIndex(lm.gconnface(i,0)); q.lk[i] = lm.gconnface(i,1); q.gid[i] = lm.gconnface(i,4); for (int v = 0; v < nv; v++) { q.left[i][v] = L[(s+i)*nv+v]; q.right[i][v] = R[(s+i)*nv+v]; se_assert_eq(q.left[i][v], se_real(lab(round ? "S%_%_%" : "L%_%_%", r, s+i, v)), "own values untouched"); } }
    for (int f = 0; f < s; f++) for (int v = 0; v < nv; v++) { se_assert_eq(L[f*nv+v], se_real(lab(round ? "S%_%_%" : "L%_%_%", r, f, v)), "own values untouched"); se_assert_eq(R[f*nv+v], se_real(lab("R%_%_%", r, f, v)), "values of other faces untouched"); }
  });
  se_assert(ok, "all processes finish"); if (!ok) return; int cnt = 0;
  for (int r = 0; r < nr; r++) for (int i = 0; i < rec[r].n; i++) { g.across(rec[r].lc[i], rec[r].lk[i], d, l); int o = own[d], m = 0; for (int j = 0; j < rec[o].n; j++) if (rec[o].lc[j] == d && rec[o].lk[j] == l) { m++; cnt++; for (int v = 0; v < nv; v++) { se_assert_eq(rec[r].right[i][v], rec[o].left[j][v], "received value is the neighbour's value for the same face"); } } se_assert_ieq(m, 1, "matching face on the neighbour"); }
  se_observe(cnt, "shared"); }
  free(rec);
}
extern "C" void harness_exchange() {
  Gen g; setup(g, false); int nr = (int)se_param("ranks", 2); pm_begin_world(nr); if (g.nc < nr) return; int own[24]; assign(g, nr, own); UMesh<freal,2> gm(g.data()); gm.correctBoundaryFaceOrientation(); gm.compute_topological();
  if (se_param("nv", 4) == 1) exchange<1>(g, gm, own, nr); else exchange<NVARS>(g, gm, own, nr);
}
// ghost cells of a vector created for the mesh receive the value of the cell across the connectivity face (contiguous numbering, as constructMesh uses)
extern "C" void harness_ghostvec() {
  Gen g; setup(g, false); int nr = (int)se_param("ranks", 2); int own[24]; if (g.nc < nr) return; UMesh<freal,2> gm(g.data()); gm.correctBoundaryFaceOrientation(); gm.compute_topological(); const int nv = (int)se_param("nv", 4);
  bool ok = pm_run_ranks(nr, [&](int r) { TrivialReplicatedGlobalMeshPartitioner p(gm); p.compute_partition(); UMesh<freal,2> lm = p.restrictMeshToPartitions(); lm.compute_topological(); Vec v, w; int e1 = createGhostedSystemVector(&lm, nv, &v), e2 = createSystemVector(&lm, nv, &w); se_assert(!e1 && !e2, "no error"); PetscInt nl, nw; VecGetLocalSize(v, &nl); VecGetLocalSize(w, &nw); se_assert_ieq(nl, lm.gnelem()*nv, "local size"); se_assert_ieq(nw, lm.gnelem()*nv, "local size");
    double* a = pm_vec(v); for (int c = 0; c < lm.gnelem(); c++) for (int k = 0; k < nv; k++) a[c*nv+k] = se_real(lab("u%_%", lm.gglobalElemIndex(c), k)); VecGhostUpdateBegin(v, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v, INSERT_VALUES, SCATTER_FORWARD);
    for (int i = 0; i < lm.gnConnFace(); i++) for (int k = 0; k < nv; k++) se_assert_eq(a[(lm.gnelem()+i)*nv+k], se_real(lab("u%_%", lm.gconnface(i,3), k)), "ghost cell value is the neighbour's");
    se_observe(lm.gnConnFace(), "ghosts"); VecDestroy(&v); VecDestroy(&w); });
  se_assert(ok, "all processes finish");
}
