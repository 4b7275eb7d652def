// P25: mesh files. The readers and the writer of the repository run on in-memory files whose numbers are symbolic (se_io.hpp).
#include "ioinc/fstream"
#include "meshgen.hpp"
#include "mesh/meshreaders.hpp"
using namespace fvens;
struct Ent { int type, nn, nf, nt; long tag[4], node[9]; };
struct Msh { int np, nb, ne; double x[12][3]; Ent b[8], e[8]; };
static int nodes_of(int t) { return t == 1 ? 2 : t == 8 ? 3 : t == 2 ? 3 : t == 3 ? 4 : t == 9 ? 6 : t == 16 ? 8 : 9; }
static int faces_of(int t) { return t == 2 || t == 9 ? 3 : 4; }
// any contents: numbers of faces and cells, types, numbers of tags; node numbers, tags and coordinates are symbolic
static void any(Msh& m, bool su2 = false) {
  const bool quad = !su2 && se_param("quadratic", 0); const int mb = (int)se_param("maxnb", 2), me = (int)se_param("maxne", 2); m.np = (int)se_param("np", 3); m.nb = (int)se_choose("nb", su2 ? 1 : 0, mb); m.ne = (int)se_choose("ne", 1, me); const bool differ = se_param("differ", 0);
  for (int i = 0; i < m.np; i++) for (int d = 0; d < 3; d++) m.x[i][d] = se_real(lab("x%_%", i, d));
  const int nbt = su2 || differ ? 0 : (int)se_choose("nbtags", 0, 3), ndt = su2 || differ ? 0 : (int)se_choose("ndtags", 0, 3);
  for (int s = 0; s < 2; s++) for (int i = 0; i < (s ? m.ne : m.nb); i++) { Ent& e = s ? m.e[i] : m.b[i]; e.nf = 0; if (!s) e.type = quad ? 8 : 1; else { long k = se_choose(lab("type%", i), 0, quad ? 2 : 1); e.type = quad ? (k == 0 ? 9 : k == 1 ? 16 : 10) : k ? 3 : 2; e.nf = faces_of(e.type); } e.nn = nodes_of(e.type);
    e.nt = differ ? (int)se_choose(lab(s ? "cn%" : "bn%", i), 0, 2) : s ? ndt : nbt; for (int t = 0; t < e.nt; t++) e.tag[t] = se_int(lab(s ? "ctag%_%" : "btag%_%", i, t), -1000000, 1000000); for (int k = 0; k < e.nn; k++) e.node[k] = se_int(lab(s ? "cnode%_%" : "bnode%_%", i, k), 0, 1000000); }
}
static void list(SeFile& f, int id, const Ent& e) { f.num(id); f.ch(' '); f.num(e.type); f.ch(' '); f.num(e.nt); for (int t = 0; t < e.nt; t++) { f.ch(' '); f.num(e.tag[t]); } for (int k = 0; k < e.nn; k++) { f.ch(' '); f.num(e.node[k]+1); } f.text(se_param("blank", 0) ? " \n" : "\n"); }
static void gmsh(const Msh& m, SeFile& f) {
  f.text("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n"); f.num(m.np); f.ch('\n'); for (int i = 0; i < m.np; i++) { f.num(i+1); for (int d = 0; d < 3; d++) { f.ch(' '); f.real(m.x[i][d]); } f.ch('\n'); } f.text("$EndNodes\n$Elements\n"); f.num(m.nb+m.ne); f.ch('\n');
  for (int i = 0; i < m.nb; i++) list(f, i+1, m.b[i]); for (int i = 0; i < m.ne; i++) list(f, m.nb+i+1, m.e[i]); f.text("$EndElements\n");
}
// what a mesh read from a file with these contents is; padded: tags the writer adds
static void compare(const MeshData& d, const Msh& m, int nbtag, int ndtag, int maxnn, int maxnf) {
  se_assert_ieq(d.npoin, m.np, "number of points"); se_assert_ieq(d.nelem, m.ne, "number of cells"); se_assert_ieq(d.nbface, m.nb, "number of boundary faces"); se_assert_ieq(d.nbtag, nbtag, "number of tags of boundary faces"); se_assert_ieq(d.ndtag, ndtag, "number of tags of cells"); se_assert_ieq(d.maxnnode, maxnn, "largest number of nodes of a cell"); se_assert_ieq(d.maxnfael, maxnf, "largest number of faces of a cell");
  const int nfa = m.e[0].type == 2 || m.e[0].type == 3 ? 2 : 3; se_assert_ieq(d.nnofa, nfa, "nodes of a face"); if (d.npoin != m.np || d.nelem != m.ne || d.nbface != m.nb || d.nbtag != nbtag || d.ndtag != ndtag || d.nnofa != nfa) return;
  se_assert_ieq((long)d.nnode.size(), m.ne, "sizes"); se_assert_ieq((long)d.nfael.size(), m.ne, "sizes"); for (int i = 0; i < m.np; i++) for (int k = 0; k < 2; k++) se_assert_eq(d.coords.get(i,k), m.x[i][k], "coordinates of a point");
  for (int i = 0; i < m.nb; i++) { for (int k = 0; k < nfa; k++) se_assert_ieq(d.bface.get(i,k), m.b[i].node[k], "nodes of a boundary face"); for (int t = 0; t < m.b[i].nt; t++) se_assert_ieq(d.bface.get(i,nfa+t), m.b[i].tag[t], "markers of a boundary face"); if (se_param("differ", 0)) for (int t = m.b[i].nt; t < nbtag; t++) se_assert_ieq(d.bface.get(i,nfa+t), 0, "markers a boundary face does not have"); }
  for (int i = 0; i < m.ne; i++) { se_assert_ieq(d.nnode[i], m.e[i].nn, "number of nodes of a cell"); se_assert_ieq(d.nfael[i], m.e[i].nf, "number of faces of a cell"); for (int k = 0; k < m.e[i].nn; k++) se_assert_ieq(d.inpoel.get(i,k), m.e[i].node[k], "nodes of a cell"); for (int t = 0; t < m.e[i].nt; t++) se_assert_ieq(d.vol_regions.get(i,t), m.e[i].tag[t], "region markers of a cell"); if (se_param("differ", 0)) for (int t = m.e[i].nt; t < ndtag; t++) se_assert_ieq(d.vol_regions.get(i,t), 0, "markers a cell does not have"); }
}
static void widest(const Msh& m, int& nb, int& nd, int& nn, int& nf) { nb = nd = nn = nf = 0; for (int i = 0; i < m.nb; i++) if (m.b[i].nt > nb) nb = m.b[i].nt; for (int i = 0; i < m.ne; i++) { if (m.e[i].nt > nd) nd = m.e[i].nt; if (m.e[i].nn > nn) nn = m.e[i].nn; if (m.e[i].nf > nf) nf = m.e[i].nf; } }
extern "C" void harness_gmsh() {
  Msh m; any(m); se_files_clear(); static const char* const N[4] = {"grid.msh", "/tmp/grid.su2.msh", "../a.b/grid", "su2"}; const char* name = N[se_param("name", 0)]; gmsh(m, *se_file(name, true)); if (se_param("name", 0) == 3) { se_files_clear(); gmsh(m, *se_file("a_su2", true)); name = "a_su2"; } MeshData d = readMesh(name); int nb, nd, nn, nf; widest(m, nb, nd, nn, nf); compare(d, m, nb, nd, nn, nf);
  for (int i = 0; i < m.ne; i++) for (int k = m.e[i].nn; k < nn; k++) se_assert_ieq(d.inpoel.get(i,k), -1, "nodes a cell does not have"); se_observe(d.coords.get(0,0), "x");
}
extern "C" void harness_su2() {
  Msh m; any(m, true); se_files_clear(); static const char* const N[3] = {"grid.su2", "../a.msh/grid.su2", "/tmp/b.msh.su2"}; const char* name = N[se_param("name", 0)]; SeFile& f = *se_file(name, true); const int gap = (int)se_choose("gap", 0, 1); const char* eq = gap ? "= " : "="; static const long T[4] = {3, 41, 1007, -2};
  const int nm = (int)se_choose("markers", 1, m.nb < 3 ? m.nb : 3); int cnt[4] = {}; long tg[4]; for (int i = 0; i < nm; i++) tg[i] = T[se_choose(lab("mk%", i), 0, 3)]; int left = m.nb; for (int i = 0; i < nm; i++) { cnt[i] = i == nm-1 ? left : (int)se_choose(lab("cnt%", i), 0, left); left -= cnt[i]; }
  if (gap) f.text("% a mesh\n"); f.text("NDIME"); f.text(eq); f.text("2\n"); if (gap) f.text("% cells\n"); f.text("NELEM"); f.text(eq); f.digits(m.ne); f.ch('\n'); for (int i = 0; i < m.ne; i++) { f.num(m.e[i].type == 2 ? 5 : 9); for (int k = 0; k < m.e[i].nn; k++) { f.ch(gap ? '\t' : ' '); f.num(m.e[i].node[k]); } f.ch(' '); f.num(i); f.ch('\n'); }
  if (gap) f.text("%\n"); f.text("NPOIN"); f.text(eq); f.digits(m.np); f.ch('\n'); for (int i = 0; i < m.np; i++) { f.real(m.x[i][0]); f.ch(' '); f.real(m.x[i][1]); f.ch(' '); f.num(i); f.ch('\n'); } f.text("NMARK"); f.text(eq); f.digits(nm); f.ch('\n');
  for (int j = 0, q = 0; j < nm; j++) { f.text("MARKER_TAG"); f.text(eq); f.digits(tg[j]); f.text("\nMARKER_ELEMS"); f.text(eq); f.digits(cnt[j]); f.ch('\n'); for (int i = 0; i < cnt[j]; i++, q++) { m.b[q].nt = 1; m.b[q].tag[0] = tg[j]; f.num(3); f.ch(' '); f.num(m.b[q].node[0]); f.ch(' '); f.num(m.b[q].node[1]); if (q+1 < m.nb || j+1 < nm || gap) f.ch('\n'); } }
  MeshData d = readMesh(name); int nb, nd, nn, nf; widest(m, nb, nd, nn, nf); compare(d, m, 1, 0, 4, 4); se_observe(d.coords.get(0,0), "x");
}
// written and read back
extern "C" void harness_roundtrip() {
  Msh m; any(m); MeshData md; int nb, nd, nn, nf; widest(m, nb, nd, nn, nf); const int nfa = se_param("quadratic", 0) ? 3 : 2; md.npoin = m.np; md.nelem = m.ne; md.nbface = m.nb; md.maxnnode = nn; md.maxnfael = nf; md.nnofa = nfa; md.nbtag = nb; md.ndtag = nd; md.coords.resize(m.np, 2); for (int i = 0; i < m.np; i++) for (int k = 0; k < 2; k++) md.coords(i,k) = m.x[i][k];
  md.inpoel.resize(m.ne, nn); if (m.nb) md.bface.resize(m.nb, nfa+nb); if (nd) md.vol_regions.resize(m.ne, nd); for (int i = 0; i < m.ne; i++) { md.nnode.push_back(m.e[i].nn); md.nfael.push_back(m.e[i].nf); for (int k = 0; k < nn; k++) md.inpoel(i,k) = k < m.e[i].nn ? (fint)m.e[i].node[k] : -1; for (int t = 0; t < nd; t++) md.vol_regions(i,t) = (int)m.e[i].tag[t]; } for (int i = 0; i < m.nb; i++) { for (int k = 0; k < nfa; k++) md.bface(i,k) = (fint)m.b[i].node[k]; for (int t = 0; t < nb; t++) md.bface(i,nfa+t) = (fint)m.b[i].tag[t]; }
  UMesh<freal,2> u(md); se_files_clear(); u.writeGmsh2("out.msh"); se_assert_ieq(se_nfiles, 1, "one file is written"); MeshData d = readMesh("out.msh"); se_assert_ieq(se_glued, 0, "numbers are separated"); compare(d, m, m.nb ? (nb < 2 ? 2 : nb) : 0, nd < 2 ? 2 : nd, nn, nf); for (int i = 0; i < m.ne; i++) for (int k = m.e[i].nn; k < nn; k++) se_assert_ieq(d.inpoel.get(i,k), -1, "nodes a cell does not have");
  // added markers distinguish what the markers distinguish
  for (int i = 0; i < m.nb; i++) for (int j = 0; j < i; j++) if (d.nbtag == 2 && nb == 1) se_assert_ieq(d.bface.get(i,nfa+1)-d.bface.get(j,nfa+1), m.b[i].tag[0]-m.b[j].tag[0], "added markers keep boundaries apart"); se_observe(d.coords.get(0,0), "x");
}
