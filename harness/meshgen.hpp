// Families of valid 2D meshes: a grid of quadrangles, each kept or split along either diagonal, with arbitrary (symbolic)
// vertex coordinates near the grid, arbitrary (symbolic) boundary and volume markers, and permuted numberings.
#pragma once
#include <vector>
#include <array>
#include <string>
#include <map>
#include <cassert>
#include <iostream>
#include <petscsys.h>
#define private public
#define protected public
#include "mesh/mesh.hpp"
#undef private
#undef protected
#include "se.hpp"
using namespace fvens;
struct Gen {
  int nx, ny, np, nc, nb, ncut; int cn[24][4], cnn[24]; double X[36], Y[36];
  int be[32][2]; long btag[32][2]; long vtag[24][2]; int nbtag, ndtag;
  int cut[16][5];             // connectivity faces: local cell, local face, other rank, other global cell, global face
  unsigned seed;
  int rnd(int m) { seed = seed*1103515245u + 12345u; return (int)((seed >> 16) & 0x7fff) % m; }
  void shuffle(int* p, int n, bool on) { for (int i = 0; i < n; i++) p[i] = i; if (on) for (int i = n-1; i > 0; i--) { int j = rnd(i+1); int t = p[i]; p[i] = p[j]; p[j] = t; } }
  // pat = 0: natural numbering; otherwise shuffled cells, vertices, boundary faces, vertex rotations
  // nx = 0: special mesh number ny instead of a grid (cells sharing two faces, concave cells, high- and low-valence points, a hole)
  void make(int nx_, int ny_, long splitcode, long pat, bool symcoords, bool flips = false, double amp = 0.2) {
    nx = nx_; ny = ny_; seed = 977u*(unsigned)pat + 13u; int c0[24][4], c0n[24]; nc = 0; long sc = splitcode; double bx[36], by[36];
    if (nx > 0) {
      np = (nx+1)*(ny+1); for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { bx[j*(nx+1)+i] = i; by[j*(nx+1)+i] = j; }
      for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        int a = j*(nx+1)+i, b = a+1, d = a+nx+1, c = d+1; long s = sc % 3; sc /= 3;
        if (s == 0) { int q[4] = {a,b,c,d}; put(c0[nc], q, 4); c0n[nc++] = 4; }
        else if (s == 1) { int q[3] = {a,b,c}, r[3] = {a,c,d}; put(c0[nc], q, 3); c0n[nc++] = 3; put(c0[nc], r, 3); c0n[nc++] = 3; }
        else { int q[3] = {a,b,d}, r[3] = {b,c,d}; put(c0[nc], q, 3); c0n[nc++] = 3; put(c0[nc], r, 3); c0n[nc++] = 3; } }
    } else {
      static const double P[6][10][2] = {{{0,0},{4,0},{4,4},{0,4},{2.2,1.9}}, {{0,0},{4,-1},{3,4},{2.4,0.9}}, {{2,0},{1,2},{-1,2},{-2,0},{-1,-2},{1,-2},{0,0}}, {{2,0},{1,2},{-1,2},{-2,-1},{1,-2},{0,0}}, {{0,0},{6,0},{3,5},{2,1},{4,1},{3,3}}, {{0,0},{4,0},{4,4},{0,4},{-1,2}}};
      static const int Pn[6] = {5,4,7,6,6,5};
      static const int C[6][6][4] = {{{0,1,4,3},{1,2,3,4}}, {{0,1,2,3},{0,3,2,-1}}, {{0,1,2,6},{2,3,4,6},{4,5,0,6}}, {{0,1,5,-1},{1,2,5,-1},{2,3,5,-1},{3,4,5,-1},{4,0,5,-1}}, {{0,1,4,3},{1,2,5,4},{2,0,3,5}}, {{0,1,2,3},{0,3,4,-1}}};
      static const int Cn[6] = {2,2,3,5,3,2}; np = Pn[ny]; nc = Cn[ny]; for (int p = 0; p < np; p++) { bx[p] = P[ny][p][0]; by[p] = P[ny][p][1]; }
      for (int c = 0; c < nc; c++) { put(c0[c], C[ny][c], 4); c0n[c] = C[ny][c][3] < 0 ? 3 : 4; } }
    int pn[36]; shuffle(pn, np, pat > 0); int pc[24]; shuffle(pc, nc, pat > 0);
    for (int i = 0; i < nc; i++) { int o = pc[i]; cnn[i] = c0n[o]; int r = pat > 0 ? rnd(cnn[i]) : 0; for (int k = 0; k < cnn[i]; k++) cn[i][k] = pn[c0[o][(k+r)%cnn[i]]]; if (cnn[i] == 3) cn[i][3] = -1; }
    for (int o = 0; o < np; o++) { int p = pn[o]; if (symcoords) { X[p] = se_range(lab("px%", p), bx[o]-amp, bx[o]+amp); Y[p] = se_range(lab("py%", p), by[o]-amp, by[o]+amp); } else { X[p] = bx[o]; Y[p] = by[o]; } }
    nb = 0; ncut = 0; int e0[32][2], ne = 0;
    for (int c = 0; c < nc; c++) for (int k = 0; k < cnn[c]; k++) { int d, l; if (!across(c, k, d, l)) { e0[ne][0] = cn[c][k]; e0[ne][1] = cn[c][(k+1)%cnn[c]]; ne++; } }
    int pb[32]; shuffle(pb, ne, pat > 0);
    for (int i = 0; i < ne; i++) { bool f = flips && rnd(2); be[i][0] = e0[pb[i]][f ? 1 : 0]; be[i][1] = e0[pb[i]][f ? 0 : 1]; btag[i][0] = 1+i; btag[i][1] = 40+i; }
    nb = ne; nbtag = 2; ndtag = 2; for (int c = 0; c < nc; c++) { vtag[c][0] = 1+c; vtag[c][1] = 60+c; }
  }
  void symtags() { for (int i = 0; i < nb; i++) for (int t = 0; t < nbtag; t++) btag[i][t] = se_int(lab("btag%_%", i, t), -1000000, 1000000); for (int c = 0; c < nc; c++) for (int t = 0; t < ndtag; t++) vtag[c][t] = se_int(lab("vtag%_%", c, t), -1000000, 1000000); }
  static void put(int* d, const int* s, int n) { for (int i = 0; i < n; i++) d[i] = s[i]; }
  int node(int c, int k) const { return cn[c][k % cnn[c]]; }
  bool across(int c, int k, int& d, int& l) const { // cell on the other side of edge k of cell c
    int a = node(c, k), b = node(c, k+1);
    for (d = 0; d < nc; d++) if (d != c) for (l = 0; l < cnn[d]; l++) if (node(d, l) == b && node(d, l+1) == a) return true;
    return false; }
  int bidx(int a, int b) const { for (int i = 0; i < nb; i++) if ((be[i][0] == a && be[i][1] == b) || (be[i][0] == b && be[i][1] == a)) return i; return -1; }
  // make every boundary edge whose index satisfies the mask a connectivity face instead
  void cutfaces(unsigned mask) {
    int m = 0; for (int i = 0; i < nb; i++) {
      if ((mask >> i) & 1u) { for (int c = 0; c < nc; c++) for (int k = 0; k < cnn[c]; k++) if (bmatch(i, c, k)) { cut[ncut][0] = c; cut[ncut][1] = k; cut[ncut][2] = 1+(i&1); cut[ncut][3] = 500+i; cut[ncut][4] = 900+i; } ncut++; }
      else { be[m][0] = be[i][0]; be[m][1] = be[i][1]; btag[m][0] = btag[i][0]; btag[m][1] = btag[i][1]; m++; } }
    nb = m; }
  bool bmatch(int i, int c, int k) const { int a = node(c, k), b = node(c, k+1); return (be[i][0] == a && be[i][1] == b) || (be[i][0] == b && be[i][1] == a); }
  int cutidx(int c, int k) const { for (int i = 0; i < ncut; i++) if (cut[i][0] == c && cut[i][1] == k) return i; return -1; }
  MeshData data() const {
    MeshData md; md.npoin = np; md.nelem = nc; md.nbface = nb; md.maxnnode = 3; md.maxnfael = 3; md.nnofa = 2; md.nbtag = nbtag; md.ndtag = ndtag; md.nnode.resize(nc); md.nfael.resize(nc);
    for (int c = 0; c < nc; c++) { md.nnode[c] = md.nfael[c] = cnn[c]; if (cnn[c] == 4) md.maxnnode = md.maxnfael = 4; }
    md.coords.resize(np, 2); for (int p = 0; p < np; p++) { md.coords(p,0) = X[p]; md.coords(p,1) = Y[p]; }
    md.inpoel.resize(nc, md.maxnnode); for (int c = 0; c < nc; c++) for (int k = 0; k < md.maxnnode; k++) md.inpoel(c,k) = k < cnn[c] ? cn[c][k] : -1;
    if (nb > 0) { md.bface.resize(nb, 2+nbtag); for (int i = 0; i < nb; i++) { md.bface(i,0) = be[i][0]; md.bface(i,1) = be[i][1]; for (int t = 0; t < nbtag; t++) md.bface(i,2+t) = (int)btag[i][t]; } }
    if (ndtag > 0) { md.vol_regions.resize(nc, ndtag); for (int c = 0; c < nc; c++) for (int t = 0; t < ndtag; t++) md.vol_regions(c,t) = (int)vtag[c][t]; }
    return md; }
  void install_cuts(UMesh<freal,2>& m, int globalbase = 0) const {
    m.nconnface = ncut; if (ncut) { m.connface.resize(ncut, 5); for (int i = 0; i < ncut; i++) for (int k = 0; k < 5; k++) m.connface(i,k) = cut[i][k]; }
    m.globalElemIndex.resize(nc); for (int c = 0; c < nc; c++) m.globalElemIndex[c] = globalbase+c; }
  double area(int c) const { double s = 0; for (int k = 0; k < cnn[c]; k++) { int a = node(c,k), b = node(c,k+1); s += X[a]*Y[b]-X[b]*Y[a]; } return 0.5*s; }
  double centre(int c, int d) const { double s = 0; for (int k = 0; k < cnn[c]; k++) s += d ? Y[node(c,k)] : X[node(c,k)]; return s/(double)cnn[c]; }
};
