// P11-P13: connectivity, metrics, reordering of UMesh (real mesh/mesh.cpp).
#include "meshgen.hpp"
static long CH(const char* n, long lo, long hi) { return se_choose(n, lo, hi); }
static void setup(Gen& g, bool sym, bool flips) {
  long nx = se_param("nx", 2), ny = se_param("ny", 2); if (nx == 0) ny = CH("kind", 0, 5); long ns = 1; for (int i = 0; i < nx*ny; i++) ns *= 3;
  long sc = CH("split", 0, ns-1); long pat = CH("pat", 0, se_param("npat", 3)); g.make(nx, ny, sc, pat, sym, flips); g.nbtag = 1+(pat&1); g.ndtag = (int)(pat % 3);
}
static void check_topology(const Gen& g, UMesh<freal,2>& m) {
  const int nc = g.nc, nb = g.nb, ncut = g.ncut; int ni = 0, d, l;
  for (int c = 0; c < nc; c++) for (int k = 0; k < g.cnn[c]; k++) if (g.across(c, k, d, l) && d > c) ni++;
  se_assert_ieq(m.gnelem(), nc, "number of cells"); se_assert_ieq(m.gnpoin(), g.np, "number of points"); se_assert_ieq(m.gnbface(), nb, "number of boundary faces"); se_assert_ieq(m.gninface(), ni, "number of interior faces"); se_assert_ieq(m.gnConnFace(), ncut, "number of connectivity faces"); se_assert_ieq(m.gnaface(), nb+ni+ncut, "number of faces");
  se_assert_ieq(m.gPhyBFaceEnd()-m.gPhyBFaceStart(), nb, "physical range"); se_assert_ieq(m.gSubDomFaceEnd()-m.gSubDomFaceStart(), ni, "interior range"); se_assert_ieq(m.gConnBFaceEnd()-m.gConnBFaceStart(), ncut, "connectivity range"); se_assert_ieq(m.gDomFaceEnd()-m.gDomFaceStart(), ni+ncut, "domain range"); se_assert_ieq(m.gFaceEnd()-m.gFaceStart(), nb+ni+ncut, "all faces range");
  se_assert(m.gPhyBFaceStart() >= 0 && m.gSubDomFaceStart() >= 0 && m.gConnBFaceStart() >= 0, "ranges start inside");
  int cls[80]; for (int f = 0; f < 80; f++) cls[f] = 0;
  for (int f = 0; f < m.gnaface(); f++) { bool p = f >= m.gPhyBFaceStart() && f < m.gPhyBFaceEnd(), i = f >= m.gSubDomFaceStart() && f < m.gSubDomFaceEnd(), c = f >= m.gConnBFaceStart() && f < m.gConnBFaceEnd(), dm = f >= m.gDomFaceStart() && f < m.gDomFaceEnd(); se_assert((int)p+(int)i+(int)c == 1, "ranges partition the faces"); se_assert(dm == !p, "domain range excludes physical faces"); cls[f] = p ? 1 : i ? 2 : 3; }
  int seen[80]; for (int f = 0; f < 80; f++) seen[f] = 0;
  for (int c = 0; c < nc; c++) {
    se_assert_ieq(m.gnnode(c), g.cnn[c], "nodes per cell"); se_assert_ieq(m.gnfael(c), g.cnn[c], "faces per cell");
    for (int k = 0; k < g.cnn[c]; k++) {
      se_assert_ieq(m.ginpoel(c, k), g.cn[c][k], "cell nodes kept"); const int f = m.gelemface(c, k); se_assert(f >= 0 && f < m.gnaface(), "elemface in range"); if (f < 0 || f >= m.gnaface()) continue; seen[f]++;
      const int a = g.node(c, k), b = g.node(c, k+1); const int L = m.gintfac(f, 0), R = m.gintfac(f, 1), p = m.gintfac(f, 2), q = m.gintfac(f, 3);
      int ci = g.cutidx(c, k);
      if (g.across(c, k, d, l)) {
        se_assert_ieq(cls[f], 2, "interior face class"); se_assert_ieq(m.gesuel(c, k), d, "neighbour across the face"); se_assert_ieq(m.gelemface(d, l), f, "both cells name the same face");
        se_assert_ieq(L, c < d ? c : d, "left cell is the lower one"); se_assert_ieq(R, c < d ? d : c, "right cell is the higher one"); se_assert_ieq(p, c < d ? a : b, "face start node"); se_assert_ieq(q, c < d ? b : a, "face end node");
      } else if (ci >= 0) {
        se_assert_ieq(cls[f], 3, "connectivity face class"); se_assert_ieq(f-m.gConnBFaceStart(), ci, "connectivity faces keep their order"); se_assert_ieq(L, c, "connectivity face cell"); se_assert_ieq(R, nc+ci, "connectivity ghost index"); se_assert_ieq(m.gesuel(c, k), nc+ci, "neighbour is the connectivity ghost"); se_assert_ieq(p, a, "connectivity face start"); se_assert_ieq(q, b, "connectivity face end"); for (int x = 0; x < 5; x++) se_assert_ieq(m.gconnface(ci, x), g.cut[ci][x], "connectivity data kept"); se_assert_ieq(m.getConnectivityGlobalIndices()[ci], g.cut[ci][3], "connectivity global index");
      } else {
        int bi = g.bidx(a, b); se_assert_ieq(cls[f], 1, "boundary face class"); se_assert_ieq(f-m.gPhyBFaceStart(), bi, "boundary faces keep their order"); se_assert_ieq(L, c, "boundary face cell"); se_assert_ieq(R, nc+ncut+bi, "boundary ghost index"); se_assert_ieq(m.gesuel(c, k), nc+ncut+bi, "neighbour is the boundary ghost"); se_assert_ieq(p, a, "boundary face start"); se_assert_ieq(q, b, "boundary face end");
        for (int t = 0; t < g.nbtag; t++) { se_assert_ieq(m.gbtags(f, t), g.btag[bi][t], "boundary marker"); se_assert_ieq(m.gbface(bi, 2+t), g.btag[bi][t], "boundary face marker kept"); }
        se_assert_ieq(m.getFaceEIndex(true, bi, c), k, "face index of the boundary face in its cell");
      }
      se_assert_ieq(m.getFaceEIndex(false, f, c), k, "face index in the cell"); se_assert_ieq(m.getNodeEIndex(c, k, 0), k, "node index of a face node"); se_assert_ieq(m.getNodeEIndex(c, k, 1), (k+1)%g.cnn[c], "node index of a face node");
    }
  }
  for (int f = 0; f < m.gnaface(); f++) se_assert_ieq(seen[f], cls[f] == 2 ? 2 : 1, "each face is listed exactly once");
  for (int p = 0; p < g.np; p++) for (int c = 0; c < nc; c++) { int n = 0, w = 0; for (int k = 0; k < g.cnn[c]; k++) if (g.cn[c][k] == p) w = 1; for (int s = m.gesup_p(p); s < m.gesup_p(p+1); s++) if (m.gesup(s) == c) n++; se_assert_ieq(n, w, "cells around a point"); }
  se_assert_ieq(m.gesup_p(0), 0, "point lists start at 0"); int tot = 0; for (int c = 0; c < nc; c++) tot += g.cnn[c]; se_assert_ieq(m.gesup_p(g.np), tot, "point lists have no other entries");
}
extern "C" void harness_topology() {
  Gen g; setup(g, false, true); if (se_param("symtags", 0)) g.symtags(); long cut = CH("cut", 0, 2); if (cut == 1) g.cutfaces(0x5u << (g.nc % 4)); else if (cut == 2) g.cutfaces(0xffffffffu);
  UMesh<freal,2> m(g.data()); g.install_cuts(m); m.correctBoundaryFaceOrientation(); m.compute_topological(); check_topology(g, m); se_observe(m.gnaface(), "faces");
  m.compute_topological(); check_topology(g, m);   // recomputing gives the same
}
extern "C" void harness_boundary_points() {
  Gen g; setup(g, false, true); UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_boundary_points(); int n = 0;
  for (int p = 0; p < g.np; p++) { int in = -1, out = -1; for (int b = 0; b < g.nb; b++) { if (m.gbface(b,0) == p) out = b; if (m.gbface(b,1) == p) in = b; } if (in < 0) continue; n++;
    int cnt = 0; for (int i = 0; i < m.nbpoin; i++) if (m.bpointsb(i,0) == p) { cnt++; se_assert_ieq(m.bpointsb(i,1), in, "boundary point: face ending here"); se_assert_ieq(m.bpointsb(i,2), out, "boundary point: face starting here"); se_assert_ieq(m.bfacebp(out,0), i, "boundary face start point number"); se_assert_ieq(m.bfacebp(in,1), i, "boundary face end point number"); }
    se_assert_ieq(cnt, 1, "each boundary point once"); }
  se_assert_ieq(m.nbpoin, n, "number of boundary points"); se_observe(n, "bpoints");
}
extern "C" void harness_metrics() {
  Gen g; setup(g, true, true); long cut = CH("cut", 0, 1); if (cut == 1) g.cutfaces(0x9u); UMesh<freal,2> m(g.data()); g.install_cuts(m); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data();
  double cc[48]; for (int i = 0; i < 48; i++) cc[i] = se_real(lab("junk%", i)); m.compute_cell_centres(cc);
  for (int c = 0; c < g.nc; c++) {
    se_assert_eq(m.garea(c), g.area(c), "area is the shoelace area"); se_assert_lt(0, m.garea(c), "area positive"); se_assert_eq(cc[2*c], g.centre(c,0), "centre x"); se_assert_eq(cc[2*c+1], g.centre(c,1), "centre y");
    double sx = 0, sy = 0, div = 0;
    for (int k = 0; k < g.cnn[c]; k++) { int f = m.gelemface(c,k); double s = m.gintfac(f,0) == c ? 1.0 : -1.0; auto n = m.gnormal(f); double len = m.gfacemetric(f,2); sx += s*len*n[0]; sy += s*len*n[1]; int a = g.node(c,k), b = g.node(c,k+1); div += 0.25*s*len*(n[0]*(g.X[a]+g.X[b])+n[1]*(g.Y[a]+g.Y[b])); }
    se_assert_eq(sx, 0, "closed cell x"); se_assert_eq(sy, 0, "closed cell y"); se_assert_eq(div, m.garea(c), "divergence theorem");
  }
  for (int f = 0; f < m.gnaface(); f++) {
    int c = m.gintfac(f,0), k = m.getFaceEIndex(false, f, c), a = g.node(c,k), b = g.node(c,k+1); double dx = g.X[b]-g.X[a], dy = g.Y[b]-g.Y[a], len = m.gfacemetric(f,2); auto n = m.gnormal(f);
    se_assert_eq(len*len, dx*dx+dy*dy, "face length"); se_assert_lt(0, len, "face length positive"); se_assert_eq(n[0]*n[0]+n[1]*n[1], 1, "unit normal"); se_assert_eq(n[0]*len, dy, "normal x is outward of the left cell"); se_assert_eq(n[1]*len, -dx, "normal y is outward of the left cell"); se_assert_eq(m.gfacemetric(f,0), n[0], "normal accessor"); se_assert_eq(m.gfacemetric(f,1), n[1], "normal accessor");
  }
  for (int p = 0; p < g.np; p++) { se_assert_eq(m.gcoords(p,0), g.X[p], "coordinates kept"); se_assert_eq(m.gcoords(p,1), g.Y[p], "coordinates kept"); }
  se_observe(m.garea(0), "area0"); se_observe(m.gfacemetric(0,2), "len0");
}
extern "C" void harness_reorder() {
  Gen g; setup(g, true, true); g.nbtag = 2; if (se_param("symtags", 0)) g.symtags(); UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation();
  int perm[24]; for (int i = 0; i < g.nc; i++) perm[i] = -1;
  if (g.nc <= 4) for (int i = 0; i < g.nc; i++) { long k = CH(lab("perm%", i), 0, g.nc-1-i); for (int v = 0, t = 0; v < g.nc; v++) { bool used = false; for (int j = 0; j < i; j++) if (perm[j] == v) used = true; if (used) continue; if (t++ == k) { perm[i] = v; break; } } }
  else g.shuffle(perm, g.nc, true);
  if (CH("topofirst", 0, 1)) { m.compute_topological(); m.compute_face_data(); }
  m.reorder_cells(perm);
  Gen h = g; for (int i = 0; i < g.nc; i++) { h.cnn[i] = g.cnn[perm[i]]; for (int k = 0; k < 4; k++) h.cn[i][k] = g.cn[perm[i]][k]; for (int t = 0; t < 2; t++) h.vtag[i][t] = g.vtag[perm[i]][t]; }
  for (int i = 0; i < g.nc; i++) { se_assert_ieq(m.gnnode(i), h.cnn[i], "cell type follows the cell"); se_assert_ieq(m.gnfael(i), h.cnn[i], "face count follows the cell"); for (int k = 0; k < h.cnn[i]; k++) se_assert_ieq(m.ginpoel(i,k), h.cn[i][k], "cell nodes follow the cell"); for (int t = 0; t < g.ndtag; t++) se_assert_ieq(m.vol_regions(i,t), h.vtag[i][t], "volume markers follow the cell"); }
  for (int b = 0; b < g.nb; b++) { bool same = m.gbface(b,0) == g.be[b][0] && m.gbface(b,1) == g.be[b][1], rev = m.gbface(b,0) == g.be[b][1] && m.gbface(b,1) == g.be[b][0]; se_assert(same || rev, "boundary face nodes kept"); for (int t = 0; t < g.nbtag; t++) se_assert_ieq(m.gbface(b,2+t), g.btag[b][t], "boundary face markers kept");
    int n = 0; for (int i = 0; i < h.nc; i++) for (int k = 0; k < h.cnn[i]; k++) if (h.node(i,k) == m.gbface(b,0) && h.node(i,k+1) == m.gbface(b,1)) n++; se_assert_ieq(n, 1, "boundary face has the domain on its left"); }
  for (int p = 0; p < g.np; p++) { se_assert_eq(m.gcoords(p,0), g.X[p], "coordinates kept"); se_assert_eq(m.gcoords(p,1), g.Y[p], "coordinates kept"); }
  m.compute_topological(); m.compute_areas(); check_topology(h, m); for (int i = 0; i < g.nc; i++) se_assert_eq(m.garea(i), g.area(perm[i]), "area follows the cell"); se_observe(m.garea(0), "area0");
}

// areas and normals of one cell with arbitrary vertex positions: convex or concave, counter-clockwise
extern "C" void harness_anycell() {
  Gen g; int nv = (int)CH("vertices", 3, 4); long free_ = CH("reflex", 0, nv-1); g.make(1, 1, nv == 4 ? 0 : 1, 0, false); if (nv == 3) { g.nc = 1; g.np = 3; g.nb = 3; for (int k = 0; k < 3; k++) { g.cn[0][k] = k; g.be[k][0] = k; g.be[k][1] = (k+1)%3; } } else { for (int k = 0; k < 4; k++) { g.cn[0][k] = k; g.be[k][0] = k; g.be[k][1] = (k+1)%4; } }
  for (int p = 0; p < nv; p++) { g.X[p] = se_range(lab("px%", p), -10, 10); g.Y[p] = se_range(lab("py%", p), -10, 10); }
  for (int k = 0; k < nv; k++) if (nv == 3 || k != free_) { int a = (k+nv-1)%nv, b = (k+1)%nv; se_assume((g.X[k]-g.X[a])*(g.Y[b]-g.Y[k])-(g.Y[k]-g.Y[a])*(g.X[b]-g.X[k]) >= 0.01); }
  UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); double cc[2]; m.compute_cell_centres(cc);
  se_assert_eq(m.garea(0), g.area(0), "area of a convex or concave cell"); se_assert_eq(cc[0], g.centre(0,0), "centre x"); se_assert_eq(cc[1], g.centre(0,1), "centre y");
  for (int f = 0; f < nv; f++) { int k = m.getFaceEIndex(false, f, 0), a = k, b = (k+1)%nv; double dx = g.X[b]-g.X[a], dy = g.Y[b]-g.Y[a], len = m.gfacemetric(f,2); auto n = m.gnormal(f); se_assert_eq(len*len, dx*dx+dy*dy, "face length"); se_assert_eq(n[0]*len, dy, "normal x"); se_assert_eq(n[1]*len, -dx, "normal y"); }
  se_observe(m.garea(0), "area0");
}
// P33: pairs of periodic boundary faces.  Coordinates across the period agree to 4e-10 on the two sides, everything else is arbitrary.
static void match_sides(Gen& g, const Gen& g0, int axis) {
  const int hi = axis ? g.ny : g.nx; const double* A0 = axis ? g0.Y : g0.X; const double* B0 = axis ? g0.X : g0.Y; double* B = axis ? g.X : g.Y;
  for (int p = 0; p < g.np; p++) if (A0[p] > hi-0.5) for (int q = 0; q < g.np; q++) if (A0[q] < 0.5 && B0[q] > B0[p]-0.5 && B0[q] < B0[p]+0.5) B[p] = B[q] + se_range(lab("mis%_%", axis, p), -4e-10, 4e-10);
}
static int side(const Gen& g0, int b, int axis) { const double* A0 = axis ? g0.Y : g0.X; const int hi = axis ? g0.ny : g0.nx; const double c = 0.5*(A0[g0.be[b][0]]+A0[g0.be[b][1]]); return c < 0.25 ? 1 : c > hi-0.25 ? 2 : 0; }
static int partner(const Gen& g0, int b, int axis) { const double* B0 = axis ? g0.X : g0.Y; const double c = B0[g0.be[b][0]]+B0[g0.be[b][1]]; for (int o = 0; o < g0.nb; o++) if (side(g0, o, axis) && side(g0, o, axis) != side(g0, b, axis)) { const double e = B0[g0.be[o][0]]+B0[g0.be[o][1]]; if (e > c-0.5 && e < c+0.5) return o; } return -1; }
extern "C" void harness_periodic() {
  Gen g0, g; const long nx = se_param("nx", 2), ny = se_param("ny", 2); long ns = 1; for (int i = 0; i < nx*ny; i++) ns *= 3; const long sc = CH("split", 0, ns-1), pat = CH("pat", 0, se_param("npat", 3)); const int axis = (int)CH("axis", 0, 1); const long both = CH("both", 0, 2);
  g0.make(nx, ny, sc, pat, false, true); g.make(nx, ny, sc, pat, true, true); g.nbtag = g0.nbtag = 1+(pat&1); g.ndtag = g0.ndtag = 0; match_sides(g, g0, axis); if (both == 1) match_sides(g, g0, 1-axis);
  const long P = se_int("marker", 0, 1000000), Q = se_int("othermarker", 0, 1000000); se_assume(P != Q); for (int b = 0; b < g.nb; b++) g.btag[b][0] = g0.btag[b][0] = side(g0, b, axis) ? P : Q;
  if (both == 2) { unsigned mask = 0; for (int b = 0; b < g.nb; b++) if (!side(g0, b, axis)) mask |= 1u << b; g.cutfaces(mask); g0.cutfaces(mask); }   // the other sides belong to other processes
  UMesh<freal,2> m(g.data()); g.install_cuts(m); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data();
  const int nf = m.gnaface(), b0 = m.gPhyBFaceStart(); int was[80][4], now[80][4]; for (int f = 0; f < nf; f++) for (int k = 0; k < 4; k++) was[f][k] = now[f][k] = m.gintfac(f, k);
  m.compute_periodic_map(-1, axis); m.compute_periodic_map((int)P, -1); for (int f = 0; f < nf; f++) for (int k = 0; k < 4; k++) se_assert_ieq(m.gintfac(f, k), was[f][k], "nothing is paired without a marker or axis");
  m.compute_periodic_map((int)P, axis); if (both == 1) m.compute_periodic_map((int)Q, 1-axis);
  for (int b = 0; b < g.nb; b++) for (int a = 0; a < 2; a++) if (side(g0, b, a) && (a == axis || both == 1)) { const int o = partner(g0, b, a); se_assert(o >= 0, "harness: partner"); now[b0+b][1] = was[b0+o][0]; }
  for (int f = 0; f < nf; f++) { se_assert_ieq(m.gintfac(f, 0), now[f][0], "cell of a face kept"); se_assert_ieq(m.gintfac(f, 1), now[f][1], "cell beyond a face"); se_assert_ieq(m.gintfac(f, 2), now[f][2], "start of a face kept"); se_assert_ieq(m.gintfac(f, 3), now[f][3], "end of a face kept"); }
  for (int b = 0; b < g.nb; b++) se_assert_ieq(m.gbtags(b0+b, 0), g.btag[b][0], "marker kept");
  se_observe(m.gintfac(b0, 1), "beyond face 0");
}
