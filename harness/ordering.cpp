// P14: cell orderings (real mesh/meshordering.cpp, mesh/ameshutils.cpp) on meshes with any spacings, any anisotropy threshold, any
// numbering of the cells and any graph ordering coming back from PETSc.
#include <vector>
#include <set>
#include <utility>
#include <string>
#include <cstring>
#include <iostream>
#include <algorithm>
#include "meshgen.hpp"
#include "petscmodel.hpp"
#include "mesh/meshordering.cpp"
#include "mesh/ameshutils.hpp"
PmMat* pm_mat(void*); void pm_option_str(const char* name, const char* val); void pm_option_real(const char* name, double v); void pm_options_clear(); extern int pm_perm_set; extern PetscInt pm_perm[64];
namespace fvens { static const Gen* thegen; MeshData readMesh(const std::string) { return thegen->data(); } }
using namespace fvens;
static void anyperm(int n, int* perm) { for (int i = 0; i < n; i++) { long k = se_choose(lab("num%", i), 0, n-1-i); for (int v = 0, t = 0; v < n; v++) { bool used = false; for (int j = 0; j < i; j++) if (perm[j] == v) used = true; if (used) continue; if (t++ == k) { perm[i] = v; break; } } } }
// grid with the cells in any order (up to 4 cells by default) and, if tensor, with any spacings of its columns and rows
static void grid(Gen& g, bool tensor) {
  long nx = se_param("nx", 2), ny = se_param("ny", 2), ns = 1; for (int i = 0; i < nx*ny; i++) ns *= 3; long sc = nx ? se_choose("split", 0, se_param("nsplit", 0) ? ns-1 : 0) : 0; if (!nx) ny = se_choose("kind", 0, 5); g.make(nx, ny, sc, 0, false, false); g.nbtag = 1; g.ndtag = 0;
  if (tensor && nx && !se_param("tensor", 1)) { for (int p = 0; p < g.np; p++) g.Y[p] = g.Y[p]*0.0625 + ((p*5)%7-3)/256.0; }
  else if (tensor && nx) { double xs[8], ys[8]; xs[0] = ys[0] = 0; for (int i = 0; i < nx; i++) xs[i+1] = xs[i] + 2*se_range(lab("hx%", i), 1e-3, 1e3); for (int j = 0; j < ny; j++) ys[j+1] = ys[j] + 2*se_range(lab("hy%", j), 1e-3, 1e3); for (int p = 0; p < g.np; p++) { g.X[p] = xs[p%(nx+1)]; g.Y[p] = ys[p/(nx+1)]; } }
  if (se_param("renumber", 1)) { int perm[24]; if (g.nc <= se_param("allperms", 4)) anyperm(g.nc, perm); else { g.seed = 7u+(unsigned)se_choose("pat", 0, se_param("npat", 2)); g.shuffle(perm, g.nc, true); } Gen h = g; for (int i = 0; i < g.nc; i++) { g.cnn[i] = h.cnn[perm[i]]; for (int k = 0; k < 4; k++) g.cn[i][k] = h.cn[perm[i]][k]; } }
}
static UMesh<freal,2> finish(const Gen& g) { UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.compute_topological(); m.compute_areas(); m.compute_face_data(); return m; }
static bool nbrs(const Gen& g, int a, int b) { int d, l; for (int k = 0; k < g.cnn[a]; k++) if (g.across(a, k, d, l) && d == b) return true; return false; }
static bool onbnd(const Gen& g, int c) { int d, l; for (int k = 0; k < g.cnn[c]; k++) if (!g.across(c, k, d, l)) return true; return false; }
static void permutation(const Gen& g, const std::vector<fint>& o) { se_assert_ieq((long)o.size(), g.nc, "one entry for each cell"); int n[24] = {}; for (int i = 0; i < g.nc; i++) { bool ok = o[i] >= 0 && o[i] < g.nc; se_assert(ok, "entry is a cell"); if (ok) n[o[i]]++; } for (int c = 0; c < g.nc; c++) se_assert_ieq(n[c], 1, "every cell is ordered once"); }
extern "C" void harness_levels() {
  Gen g; grid(g, false); UMesh<freal,2> m = finish(g); std::vector<fint> lv = levelSchedule<freal>(m); const int n = (int)lv.size(); se_assert(n >= 2, "at least one level"); se_assert_ieq(lv[0], 0, "first level starts at the first cell"); se_assert_ieq(lv[n-1], g.nc, "last level ends at the last cell");
  int level[24]; for (int i = 0; i+1 < n; i++) { se_assert(lv[i] < lv[i+1], "levels are not empty and in order"); for (int c = lv[i]; c < lv[i+1] && c < g.nc; c++) level[c] = i; }
  for (int a = 0; a < g.nc; a++) for (int b = 0; b < a; b++) if (nbrs(g, a, b)) se_assert(level[b] < level[a], "a neighbour with a lower number is in an earlier level"); 
  // as few levels as the order of the cells admits: a level ends only before a cell with a neighbour in it
  for (int i = 1; i+1 < n; i++) { bool need = false; for (int c = lv[i-1]; c < lv[i]; c++) if (nbrs(g, lv[i], c)) need = true; se_assert(need, "a level ends only where the next cell depends on it"); } se_observe(n, "levels");
}
static void checklines(const Gen& g, const LineConfig& lc, double thr) {
  se_assert_ieq((long)lc.celline.size(), g.nc, "each cell has a line number"); int n[24] = {}; for (size_t l = 0; l < lc.lines.size(); l++) { const std::vector<fint>& L = lc.lines[l]; se_assert(L.size() >= 2, "a line has at least two cells"); for (size_t i = 0; i < L.size(); i++) { bool ok = L[i] >= 0 && L[i] < g.nc; se_assert(ok, "a line is made of cells"); if (!ok) return; n[L[i]]++; se_assert_ieq(lc.celline[L[i]], (long)l, "line number of a cell in a line"); }
    se_assert(onbnd(g, L[0]), "a line starts at a boundary cell"); for (size_t i = 0; i+1 < L.size(); i++) se_assert(nbrs(g, L[i], L[i+1]), "consecutive cells of a line share a face");
    // coupling: the distance to the next cell is less than the distance to the farthest neighbour over the threshold
    if (se_param("coupling", 1)) for (size_t i = 0; i < L.size(); i++) { double mx = 0, nx = 0, mn = 0; bool first = true; int d, e; for (int k = 0; k < g.cnn[L[i]]; k++) if (g.across(L[i], k, d, e)) { double x = g.centre(L[i],0)-g.centre(d,0), y = g.centre(L[i],1)-g.centre(d,1), q = x*x+y*y; if (first || q > mx) mx = q; if (first || q < mn) mn = q; first = false; if (i+1 < L.size() && d == L[i+1]) nx = q; }
        se_assert_lt(thr*thr*mn, mx, "a cell in a line is anisotropic beyond the threshold"); if (i+1 < L.size()) se_assert_lt(thr*thr*nx, mx, "a line follows couplings stronger than the threshold"); } }
  for (int c = 0; c < g.nc; c++) { se_assert(n[c] <= 1, "no cell is in two lines"); if (n[c] == 0) se_assert_ieq(lc.celline[c], -1, "line number of a cell in no line"); }
}
extern "C" void harness_lines() {
  Gen g; grid(g, true); UMesh<freal,2> m = finish(g); const double thr = se_range("thr", 0.5, 1e4); LineConfig lc = findLines(m, thr); checklines(g, lc, thr); se_observe((double)lc.lines.size(), "lines");
}
// the mesh really is renumbered: lines first, one after another, then the other cells in their order
extern "C" void harness_line_reorder() {
  Gen g; grid(g, true); UMesh<freal,2> m = finish(g); const double thr = se_range("thr", 0.5, 1e4); LineConfig lc = findLines(m, thr); lineReorder(m, thr); std::vector<fint> o; for (auto& L : lc.lines) for (fint c : L) o.push_back(c); for (int c = 0; c < g.nc; c++) if (lc.celline[c] == -1) o.push_back(c); permutation(g, o);
  for (int i = 0; i < g.nc; i++) { se_assert_ieq(m.gnnode(i), g.cnn[o[i]], "cell follows the ordering"); for (int k = 0; k < g.cnn[o[i]]; k++) se_assert_ieq(m.ginpoel(i,k), g.cn[o[i]][k], "cell follows the ordering"); } se_observe((double)lc.lines.size(), "lines");
}
// graph of lines and points for any set of lines; any graph ordering expands to a permutation of the cells with each line contiguous
extern "C" void harness_line_graph() {
  Gen g; grid(g, false); UMesh<freal,2> m = finish(g); LineConfig lc; lc.celline.assign(g.nc, -1); const int ml = (int)se_param("lines", 2); 
  for (int l = 0; l < ml; l++) { std::vector<fint> L; int c = (int)se_choose(lab("start%", l), -1, g.nc-1); if (c < 0) break; if (lc.celline[c] >= 0) return; L.push_back(c); lc.celline[c] = l; for (int s = 0; s < 3; s++) { int k = (int)se_choose(lab("next%_%", l, s), -1, 3), d, e; if (k < 0 || k >= g.cnn[c] || !g.across(c, k, d, e) || lc.celline[d] >= 0) break; lc.celline[d] = l; L.push_back(d); c = d; } if (L.size() < 2) return; lc.lines.push_back(L); }
  GraphVertices gv = createLinePointGraphVertices(m, lc); const int nl = (int)lc.lines.size(); int np = 0, pt[24], vert[24]; for (int c = 0; c < g.nc; c++) if (lc.celline[c] < 0) { pt[np] = c; vert[c] = nl+np; np++; } else vert[c] = lc.celline[c];
  se_assert_ieq((long)gv.gverts.size(), nl+np, "one vertex for each line and each other cell"); se_assert_ieq((long)gv.pointList.size(), np, "list of the cells in no line"); se_assert(gv.lc == &lc, "line configuration"); for (int i = 0; i < nl; i++) { se_assert(gv.gverts[i].isline, "lines come first"); se_assert_ieq(gv.gverts[i].idx, i, "line number"); } for (int i = 0; i < np; i++) { se_assert(!gv.gverts[nl+i].isline, "points come after the lines"); se_assert_ieq(gv.gverts[nl+i].idx, i, "point number"); se_assert_ieq(gv.pointList[i], pt[i], "cell of a point"); se_assert_ieq(gv.cellsToPtsMap[pt[i]], i, "point of a cell"); }
  Mat G; createLinePointGraph(m, gv, &G); PmMat* P = pm_mat(G); const int nv = nl+np; se_assert_ieq(P->gbrows, nv, "size of the graph"); bool adj[24][24] = {}; for (int a = 0; a < g.nc; a++) { adj[vert[a]][vert[a]] = true; for (int b = 0; b < g.nc; b++) if (nbrs(g, a, b)) adj[vert[a]][vert[b]] = true; }
  for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) se_assert_eq(P->a[i*P->gbrows+j], adj[i][j] ? 1.0 : 0.0, "graph vertices are connected exactly if cells of theirs share a face"); MatDestroy(&G); se_observe(nv, "vertices");
}
extern "C" void harness_hybrid() {
  Gen g; grid(g, true); UMesh<freal,2> m = finish(g); const double thr = se_range("thr", 0.5, 1e4); const bool nat = se_param("natural", 0); LineConfig lc = findLines(m, thr); const int nl = (int)lc.lines.size(); int np = 0, pt[24]; for (int c = 0; c < g.nc; c++) if (lc.celline[c] < 0) pt[np++] = c; 
  pm_perm_set = 0; std::vector<fint> o = getHybridLineOrdering(m, thr, nat ? "natural" : "rcm"); permutation(g, o); std::vector<fint> ex; for (int v = 0; v < nl+np; v++) { int w = nat ? v : (int)pm_perm[v]; if (w < nl) for (fint c : lc.lines[w]) ex.push_back(c); else ex.push_back(pt[w-nl]); } se_assert_ieq((long)ex.size(), g.nc, "one entry for each cell"); for (int i = 0; i < g.nc; i++) se_assert_ieq(o[i], ex[i], "lines and points follow the ordering of the graph");
  if (se_param("mesh", 0)) { pm_perm_set = 1; hybridLineReorder(m, thr, nat ? "natural" : "rcm"); for (int i = 0; i < g.nc; i++) for (int k = 0; k < g.cnn[o[i]]; k++) se_assert_ieq(m.ginpoel(i,k), g.cn[o[i]][k], "cell follows the ordering"); pm_perm_set = 0; } se_observe(nl, "lines");
}
// preprocessing with each kind of request: a permutation of the cells with everything recomputed
extern "C" void harness_preprocess() {
  Gen g; grid(g, false); if (se_param("nx", 2)) for (int p = 0; p < g.np; p++) g.Y[p] *= 0.0625; thegen = &g; pm_begin_world(1); pm_options_clear(); pm_perm_set = 0; const long kind = se_param("order", 0); static const char* const O[6] = {nullptr, "natural", "rcm", "line", "line_rcm", "line_natural"}; double thr = 0; if (kind) pm_option_str("-mesh_reorder", O[kind]); bool given = kind >= 3 && se_param("threshold", 1); if (given) { thr = se_range("thr", 0.5, 1e4); pm_option_real("-mesh_anisotropy_threshold", thr); }
  bool threw = false; UMesh<freal,2> m(g.data()); m.correctBoundaryFaceOrientation(); m.globalElemIndex.resize(g.nc); for (int i = 0; i < g.nc; i++) m.globalElemIndex[i] = i; try { int e = preprocessMesh<freal>(m); se_assert(e == 0, "no error"); } catch (std::exception&) { threw = true; } pm_options_clear();
  se_assert(threw == (kind >= 3 && !given), "a missing threshold is reported"); if (threw) { se_observe(1, "threw"); return; }
  int o[24]; bool used[24] = {}; for (int i = 0; i < g.nc; i++) { o[i] = -1; for (int c = 0; c < g.nc && o[i] < 0; c++) { bool s = !used[c] && m.gnnode(i) == g.cnn[c]; for (int k = 0; s && k < g.cnn[c]; k++) if (m.ginpoel(i,k) != g.cn[c][k]) s = false; if (s) { o[i] = c; used[c] = true; } } se_assert(o[i] >= 0, "cells are those of the original mesh"); if (o[i] < 0) return; }
  if (kind < 2) for (int i = 0; i < g.nc; i++) se_assert_ieq(o[i], i, "order kept when no reordering is requested"); if (kind == 2) for (int i = 0; i < g.nc; i++) se_assert_ieq(o[i], pm_perm[i], "PETSc ordering applied");
  for (int i = 0; i < g.nc; i++) { se_assert_eq(m.garea(i), g.area(o[i]), "areas recomputed"); for (int k = 0; k < g.cnn[o[i]]; k++) { int d, l; bool in = g.across(o[i], k, d, l); fint j = m.gesuel(i,k); if (in) { bool ok = j >= 0 && j < g.nc; se_assert(ok, "neighbours recomputed"); if (ok) se_assert_ieq(o[j], d, "neighbours recomputed"); } else se_assert(j >= g.nc, "boundary faces recomputed"); } }
  for (int f = 0; f < m.gnaface(); f++) { int c = m.gintfac(f,0); double dx = m.gcoords(m.gintfac(f,3),0)-m.gcoords(m.gintfac(f,2),0), dy = m.gcoords(m.gintfac(f,3),1)-m.gcoords(m.gintfac(f,2),1), L = m.gfacemetric(f,2); se_assert(c >= 0 && c < g.nc, "left cell"); se_assert_eq(L*L, dx*dx+dy*dy, "face lengths recomputed"); se_assert_eq(m.gfacemetric(f,0)*L, dy, "normals recomputed"); se_assert_eq(m.gfacemetric(f,1)*L, -dx, "normals recomputed"); } se_observe(m.garea(0), "area0");
}
// ---- P34: comparison of two meshes
static void variant(Gen& g, int v, long sc) { static const int D[5][2] = {{2,1},{1,2},{1,1},{2,1},{0,5}}; int ny = D[v][1]; if (v == 4) sc = 0; if (v == 2) sc %= 3; g.make(D[v][0], ny, sc, v == 3 ? 1 : 0, false); g.nbtag = 1; g.ndtag = 0; for (int i = 0; i < g.nb; i++) g.btag[i][0] = 1; }
extern "C" void harness_compare() {
  const int va = (int)se_choose("a", 0, 4), vb = (int)se_choose("b", 0, 4); Gen g, h; variant(g, va, va == 4 ? 0 : se_choose("split-a", 0, va == 2 ? 2 : 8)); variant(h, vb, vb == 4 ? 0 : se_choose("split-b", 0, vb == 2 ? 2 : 8));
  if (se_param("values", 1)) {   // any markers and any coordinates in the second mesh, a corner of a cell moved round, one marker more
    const int rot = (int)(se_param("rotate", 1) ? se_choose("rot", -1, h.nc-1) : -1); if (rot >= 0) { int q[4]; const int n = h.cnn[rot]; for (int k = 0; k < n; k++) q[k] = h.cn[rot][(k+1)%n]; for (int k = 0; k < n; k++) h.cn[rot][k] = q[k]; }
    for (int i = 0; i < h.nb && i < se_param("markers", 24); i++) h.btag[i][0] = se_int(lab("marker%", i), 0, 3); const int p = se_param("move", 1) ? (int)se_choose("moved", 0, h.np-1) : 0; h.X[p] += se_range("dx", -0.1, 0.1); h.Y[p] += se_range("dy", -0.1, 0.1); }
  if (se_param("tags", 0)) { h.nbtag = 1+(int)se_choose("tags", 0, 1); for (int i = 0; i < h.nb; i++) h.btag[i][1] = i < 2 ? se_int(lab("second%", i), 0, 3) : 1; if (se_choose("both", 0, 1)) { g.nbtag = 2; for (int i = 0; i < g.nb; i++) g.btag[i][1] = 1; } }
  UMesh<freal,2> m = UMesh<freal,2>(g.data()), o = UMesh<freal,2>(h.data()); m.compute_topological(); o.compute_topological();
  const std::array<bool,8> q = compareMeshes(m, o), r = compareMeshes(o, m); bool e[8]; bool close = false;
  e[0] = g.nc == h.nc; e[1] = g.np == h.np; e[2] = g.nb == h.nb; e[3] = e[5] = e[0]; e[6] = e[2] && g.nbtag == h.nbtag; e[7] = e[1];
  if (e[0]) for (int c = 0; c < g.nc; c++) { if (g.cnn[c] != h.cnn[c]) e[3] = e[5] = false; else for (int k = 0; k < g.cnn[c]; k++) if (g.cn[c][k] != h.cn[c][k]) e[5] = false; } e[4] = e[3];   // in two dimensions a cell has as many faces as corners
  if (e[6]) for (int i = 0; i < g.nb; i++) { for (int k = 0; k < 2; k++) if (m.gbface(i,k) != o.gbface(i,k)) e[6] = false; for (int t = 0; t < g.nbtag; t++) if (m.gbface(i,2+t) != o.gbface(i,2+t)) e[6] = false; }
  if (e[1]) for (int p = 0; p < g.np; p++) { const double dx = std::fabs(g.X[p]-h.X[p]), dy = std::fabs(g.Y[p]-h.Y[p]); if (dx > 1e-12 || dy > 1e-12) e[7] = false; else if (dx != 0 || dy != 0) close = true; }
  static const char* L[8] = {"number of cells", "number of points", "number of boundary faces", "corners of each cell", "faces of each cell", "cells' points", "boundary faces and markers", "coordinates"};
  for (int i = 0; i < 8; i++) { if (i == 7 && close && e[7]) continue; se_assert(q[i] == e[i], L[i]); se_assert(r[i] == e[i], L[i]); } int s = 0; for (int i = 0; i < 8; i++) s = 2*s+q[i]; se_observe(s, "flags");
}
