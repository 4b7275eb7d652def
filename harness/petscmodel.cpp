// Model of the PETSc / MPI calls used by the code: vectors with ghost blocks, block matrices, options, point-to-point
// messages and collectives between several ranks executed one after the other (see petscmodel.hpp).
#define OMPI_SKIP_MPICXX 1
#include <petscksp.h>
#include <cstdlib>
#include <cstring>
#include "petscmodel.hpp"
#include "se.hpp"
#undef MPI_Isend
#undef MPI_Irecv
#undef MPI_Wait
#undef MPI_Waitall
#undef MPI_Allreduce
#undef MPI_Send
#undef MPI_Bcast
#undef MPI_Barrier
#undef MPI_Reduce
#undef MPI_Allgather
#undef MPI_Recv
enum { MAXR = 4, MAXSEQ = 400, MAXMSG = 64 };
static int g_rank = 0, g_size = 1;
struct Contrib { void* p; long n; bool set; };
static Contrib coll[MAXR][MAXSEQ]; static int seqno[MAXR];
struct Msg { void* copy; long bytes; int tag; bool set, taken; };
static Msg msgs[MAXR][MAXR][MAXMSG]; static int nsent[MAXR][MAXR];
struct Req { bool active, send; const void* src; void* dst; long bytes; int peer, tag, k; };
static Req reqs[256]; static int nreq = 1, npending = 0;
int pm_rank() { return g_rank; }
int pm_size() { return g_size; }
static bool blocked = false;   // unwinding from a blocked operation, to be resumed later
void pm_begin_world(int n) {
  g_size = n; g_rank = 0; blocked = false;
  for (int r = 0; r < MAXR; r++) { for (int i = 0; i < MAXSEQ; i++) coll[r][i].set = false; for (int s = 0; s < MAXR; s++) { for (int i = 0; i < MAXMSG; i++) msgs[r][s][i].set = false; } }
}
void pm_begin_rank(int r) {
  g_rank = r; seqno[r] = 0; nreq = 1; npending = 0; blocked = false;
  for (int s = 0; s < MAXR; s++) { nsent[r][s] = 0; for (int i = 0; i < MAXMSG; i++) msgs[s][r][i].taken = false; }
}
void pm_end_rank() {
  se_assert_ieq(npending, 0, "every request was completed");
  for (int s = 0; s < g_size; s++) for (int i = 0; i < nsent[g_rank][s]; i++) { }
}
static void put(Contrib& c, const void* p, long bytes) { c.p = malloc(bytes > 0 ? bytes : 1); if (bytes) memcpy(c.p, p, bytes); c.n = bytes; c.set = true; }
static int post(const void* p, long bytes) { int s = seqno[g_rank]++; se_assert(s < MAXSEQ, "model: too many collectives"); put(coll[g_rank][s], p, bytes); return s; }
[[noreturn]] static void throw_block() { blocked = true; throw PmBlock(); }
static void need_all(int s) { for (int r = 0; r < g_size; r++) if (!coll[r][s].set) throw_block(); }
static bool self(MPI_Comm c) { return c == MPI_COMM_SELF; }
static long tsize(MPI_Datatype t) { return t == MPI_DOUBLE ? 8 : t == MPI_INT ? 4 : 1; }

struct _p_Vec { int refs; MPI_Comm comm; int n, bs, nghost, rstart, N; int* ghosts; double* a; bool owned; int gseq; int out; Vec parent; };
struct _p_Mat { PmMat m; MPI_Comm comm; };
struct _p_IS { const int* p; int n; };
static void spread_ranges(Vec v) {
  if (self(v->comm) || g_size == 1) { v->rstart = 0; v->N = v->n; return; }
  int s = post(&v->n, 4); need_all(s); v->rstart = 0; v->N = 0;
  for (int r = 0; r < g_size; r++) { int k; memcpy(&k, coll[r][s].p, 4); if (r < g_rank) v->rstart += k; v->N += k; }
}
static Vec newvec(MPI_Comm c, int bs, int n, int ng, const int* g) {
  Vec v = (Vec)malloc(sizeof(_p_Vec)); v->refs = 1; v->comm = c; v->n = n; v->bs = bs; v->nghost = ng; v->ghosts = (int*)malloc(4*(ng > 0 ? ng : 1)); for (int i = 0; i < ng; i++) v->ghosts[i] = g[i];
  long tot = n + (long)ng*bs; v->a = (double*)malloc(8*(tot > 0 ? tot : 1)); for (long i = 0; i < tot; i++) v->a[i] = 0; v->owned = true; v->gseq = -1; v->out = 0; v->parent = nullptr; spread_ranges(v); return v;
}
extern "C" {
MPI_Comm PETSC_COMM_WORLD = MPI_COMM_WORLD;
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = self(c) ? 0 : g_rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = self(c) ? 1 : g_size; return 0; }
int MPI_Barrier(MPI_Comm c) { if (!self(c) && g_size > 1) { int s = post("", 1); need_all(s); } return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)tsize(t); return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
double MPI_Wtime() { return 0; }
int MPI_Abort(MPI_Comm, int) { abort(); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm, MPI_Request* rq) {
  se_assert(dest >= 0 && dest < g_size, "message destination exists"); int k = nsent[g_rank][dest]++; se_assert(k < MAXMSG, "model: too many messages");
  Msg& m = msgs[g_rank][dest][k]; m.bytes = n*tsize(t); m.copy = malloc(m.bytes > 0 ? m.bytes : 1); if (m.bytes) memcpy(m.copy, b, m.bytes); m.tag = tag; m.set = true;
  Req& r = reqs[nreq]; r = Req{true, true, b, nullptr, m.bytes, dest, tag, k}; *rq = (MPI_Request)(long)nreq++; npending++; return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request* rq) {
  se_assert(src >= 0 && src < g_size, "message source exists"); Req& r = reqs[nreq]; r = Req{true, false, nullptr, b, n*tsize(t), src, tag, 0}; *rq = (MPI_Request)(long)nreq++; npending++; return 0;
}
int MPI_Wait(MPI_Request* rq, MPI_Status*) {
  long i = (long)*rq; if (i <= 0 || i >= nreq || !reqs[i].active) return 0; Req& r = reqs[i];
  if (r.send) { Msg& m = msgs[g_rank][r.peer][r.k]; if (m.bytes) memcpy(m.copy, r.src, m.bytes); }   // the network may read the buffer as late as this
  else {
    Msg* f = nullptr;
    for (int k = 0; k < MAXMSG && msgs[r.peer][g_rank][k].set; k++) { Msg& m = msgs[r.peer][g_rank][k]; if (!m.taken && (r.tag == MPI_ANY_TAG || r.tag == m.tag)) { f = &m; break; } }
    if (!f) throw_block();
    se_assert(f->bytes <= r.bytes, "message not truncated"); se_assert_ieq(f->bytes, r.bytes, "message has the expected size");
    if (f->bytes) memcpy(r.dst, f->copy, f->bytes < r.bytes ? f->bytes : r.bytes); f->taken = true;
  }
  r.active = false; npending--; *rq = (MPI_Request)0; return 0;
}
int MPI_Waitall(int n, MPI_Request* rq, MPI_Status*) { for (int i = 0; i < n; i++) MPI_Wait(rq+i, MPI_STATUS_IGNORE); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  if (self(c) || g_size == 1) return 0; int s = post(b, n*tsize(t)); if (!coll[root][s].set) throw_block(); se_assert_ieq(coll[root][s].n, n*tsize(t), "broadcast sizes agree"); memcpy(b, coll[root][s].p, n*tsize(t)); return 0;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  const void* src = in == MPI_IN_PLACE ? out : in;
  if (self(c) || g_size == 1) { if (src != out) memcpy(out, src, n*tsize(t)); return 0; }
  int s = post(src, n*tsize(t)); need_all(s);
  for (int r = 0; r < g_size; r++) for (int i = 0; i < n; i++) {
    if (t == MPI_DOUBLE) { double x = ((double*)coll[r][s].p)[i], &o = ((double*)out)[i]; o = r == 0 ? x : op == MPI_SUM ? o+x : op == MPI_MIN ? (x < o ? x : o) : (x > o ? x : o); }
    else { int x = ((int*)coll[r][s].p)[i], &o = ((int*)out)[i]; o = r == 0 ? x : op == MPI_SUM ? o+x : op == MPI_MIN ? (x < o ? x : o) : (x > o ? x : o); }
  }
  return 0;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return MPI_Allreduce(in, out, n, t, op, c); }
PetscErrorCode PetscError(MPI_Comm, int line, const char*, const char*, PetscErrorCode n, PetscErrorType, const char*, ...) { return n; }
void PetscMPIErrorString(PetscMPIInt, char* s) { s[0] = 0; }
PetscErrorCode PetscMallocValidate(int, const char*, const char*) { return PETSC_SUCCESS; }
PetscErrorCode PetscObjectGetComm(PetscObject o, MPI_Comm* c) { *c = ((Mat)o)->comm; return PETSC_SUCCESS; }
PetscErrorCode PetscObjectTypeCompare(PetscObject, const char*, PetscBool* f) { *f = PETSC_FALSE; return PETSC_SUCCESS; }
// ---- vectors
PetscErrorCode VecCreateGhostBlock(MPI_Comm c, PetscInt bs, PetscInt n, PetscInt, PetscInt ng, const PetscInt g[], Vec* v) { *v = newvec(c, bs, n, ng, g); return PETSC_SUCCESS; }
PetscErrorCode VecCreateMPI(MPI_Comm c, PetscInt n, PetscInt, Vec* v) { *v = newvec(c, 1, n, 0, nullptr); return PETSC_SUCCESS; }
PetscErrorCode VecCreateSeq(MPI_Comm c, PetscInt n, Vec* v) { *v = newvec(MPI_COMM_SELF, 1, n, 0, nullptr); return PETSC_SUCCESS; }
PetscErrorCode VecDuplicate(Vec v, Vec* w) { *w = newvec(v->comm, v->bs, v->n, v->nghost, v->ghosts); return PETSC_SUCCESS; }
PetscErrorCode VecDestroy(Vec* v) { if (*v) { if (!blocked) se_assert_ieq((*v)->out, 0, "vector destroyed while its array is in use"); free((*v)->a); free((*v)->ghosts); free(*v); *v = nullptr; } return PETSC_SUCCESS; }
PetscErrorCode VecSetFromOptions(Vec) { return PETSC_SUCCESS; }
PetscErrorCode VecSet(Vec v, PetscScalar x) { for (int i = 0; i < v->n; i++) v->a[i] = x; return PETSC_SUCCESS; }
PetscErrorCode VecCopy(Vec x, Vec y) { for (int i = 0; i < x->n; i++) y->a[i] = x->a[i]; return PETSC_SUCCESS; }
PetscErrorCode VecAXPY(Vec y, PetscScalar a, Vec x) { for (int i = 0; i < x->n; i++) y->a[i] += a*x->a[i]; return PETSC_SUCCESS; }
PetscErrorCode VecScale(Vec y, PetscScalar a) { for (int i = 0; i < y->n; i++) y->a[i] *= a; return PETSC_SUCCESS; }
PetscErrorCode VecGetLocalSize(Vec v, PetscInt* n) { *n = v->n; return PETSC_SUCCESS; }
PetscErrorCode VecGetSize(Vec v, PetscInt* n) { *n = v->N; return PETSC_SUCCESS; }
PetscErrorCode VecGetArray(Vec v, PetscScalar** a) { v->out++; *a = v->a; return PETSC_SUCCESS; }
PetscErrorCode VecRestoreArray(Vec v, PetscScalar** a) { v->out--; *a = nullptr; return PETSC_SUCCESS; }
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** a) { v->out++; *a = v->a; return PETSC_SUCCESS; }
PetscErrorCode VecRestoreArrayRead(Vec v, const PetscScalar** a) { v->out--; *a = nullptr; return PETSC_SUCCESS; }
PetscErrorCode VecGhostGetLocalForm(Vec v, Vec* l) { *l = v; v->out++; return PETSC_SUCCESS; }
PetscErrorCode VecGhostRestoreLocalForm(Vec v, Vec* l) { v->out--; *l = nullptr; return PETSC_SUCCESS; }
PetscErrorCode VecMin(Vec v, PetscInt*, PetscReal* x) { double s = v->a[0]; for (int i = 1; i < v->n; i++) s = v->a[i] < s ? v->a[i] : s; double t = s; if (!self(v->comm)) MPI_Allreduce(&s, &t, 1, MPI_DOUBLE, MPI_MIN, v->comm); *x = t; return PETSC_SUCCESS; }
PetscErrorCode VecMax(Vec v, PetscInt*, PetscReal* x) { double s = v->a[0]; for (int i = 1; i < v->n; i++) s = v->a[i] > s ? v->a[i] : s; double t = s; if (!self(v->comm)) MPI_Allreduce(&s, &t, 1, MPI_DOUBLE, MPI_MAX, v->comm); *x = t; return PETSC_SUCCESS; }
PetscErrorCode VecDot(Vec u, Vec v, PetscScalar* x) { double s = 0; for (int i = 0; i < v->n; i++) s += u->a[i]*v->a[i]; double t = s; if (!self(v->comm)) MPI_Allreduce(&s, &t, 1, MPI_DOUBLE, MPI_SUM, v->comm); *x = t; return PETSC_SUCCESS; }
PetscErrorCode VecWAXPY(Vec w, PetscScalar a, Vec x, Vec y) { for (int i = 0; i < x->n; i++) w->a[i] = a*x->a[i]+y->a[i]; return PETSC_SUCCESS; }
PetscErrorCode VecAYPX(Vec y, PetscScalar a, Vec x) { for (int i = 0; i < x->n; i++) y->a[i] = a*y->a[i]+x->a[i]; return PETSC_SUCCESS; }
PetscErrorCode VecAXPBY(Vec y, PetscScalar a, PetscScalar b, Vec x) { for (int i = 0; i < x->n; i++) y->a[i] = a*x->a[i]+b*y->a[i]; return PETSC_SUCCESS; }
PetscErrorCode VecPointwiseMult(Vec w, Vec x, Vec y) { for (int i = 0; i < x->n; i++) w->a[i] = x->a[i]*y->a[i]; return PETSC_SUCCESS; }
PetscErrorCode VecNorm(Vec v, NormType, PetscReal* x) {
  double s = 0; for (int i = 0; i < v->n; i++) s += v->a[i]*v->a[i]; double t = s; if (!self(v->comm)) MPI_Allreduce(&s, &t, 1, MPI_DOUBLE, MPI_SUM, v->comm); *x = __builtin_sqrt(t); return PETSC_SUCCESS; }
PetscErrorCode VecGhostUpdateBegin(Vec v, InsertMode m, ScatterMode d) {
  se_assert((m == INSERT_VALUES && d == SCATTER_FORWARD) || (m == ADD_VALUES && d == SCATTER_REVERSE), "model: only forward insert and reverse add scatters"); if (self(v->comm) || g_size == 1) { v->gseq = -2; return PETSC_SUCCESS; }
  if (d == SCATTER_REVERSE) { long w = 4+8L*v->bs, b = w*v->nghost; char* p = (char*)malloc(b+1); for (int g = 0; g < v->nghost; g++) { memcpy(p+w*g, v->ghosts+g, 4); memcpy(p+w*g+4, v->a+v->n+(long)g*v->bs, 8L*v->bs); } v->gseq = post(p, b); free(p); return PETSC_SUCCESS; }
  long b = 8L*v->n + 8; char* p = (char*)malloc(b); memcpy(p, &v->rstart, 4); memcpy(p+4, &v->n, 4); if (v->n) memcpy(p+8, v->a, 8L*v->n); v->gseq = post(p, b); free(p); return PETSC_SUCCESS; }
PetscErrorCode VecGhostUpdateEnd(Vec v, InsertMode, ScatterMode d) {
  se_assert(v->gseq != -1, "scatter finished that was not started"); int s = v->gseq; v->gseq = -1; if (s == -2) return PETSC_SUCCESS; need_all(s);
  if (d == SCATTER_REVERSE) { long w = 4+8L*v->bs; for (int r = 0; r < g_size; r++) for (long g = 0; g < coll[r][s].n/w; g++) { char* p = (char*)coll[r][s].p+w*g; int q; memcpy(&q, p, 4); q = q*v->bs-v->rstart; if (q >= 0 && q < v->n) for (int k = 0; k < v->bs; k++) { double x; memcpy(&x, p+4+8*k, 8); v->a[q+k] += x; } } return PETSC_SUCCESS; }
  for (int g = 0; g < v->nghost; g++) { int first = v->ghosts[g]*v->bs; bool found = false;
    for (int r = 0; r < g_size; r++) { int rs, n; memcpy(&rs, coll[r][s].p, 4); memcpy(&n, (char*)coll[r][s].p+4, 4); if (first >= rs && first < rs+n) { memcpy(v->a+v->n+(long)g*v->bs, (char*)coll[r][s].p+8+8L*(first-rs), 8L*v->bs); found = true; } }
    se_assert(found, "ghost index exists on some rank"); }
  return PETSC_SUCCESS; }
PetscErrorCode VecView(Vec, PetscViewer) { return PETSC_SUCCESS; }
// ---- matrices (dense storage over global block rows)
static Mat newmat(MPI_Comm c) { Mat A = (Mat)malloc(sizeof(_p_Mat)); memset(A, 0, sizeof(_p_Mat)); A->comm = c; return A; }
static void alloc(Mat A, int nb, int bs) { A->m.gbrows = nb; A->m.bs = bs; long n = (long)nb*bs; A->m.a = (double*)malloc(8*n*n+8); for (long i = 0; i < n*n; i++) A->m.a[i] = 0; A->m.touched = (char*)malloc((long)nb*nb+1); memset(A->m.touched, 0, (long)nb*nb); }
PetscErrorCode MatCreate(MPI_Comm c, Mat* A) { *A = newmat(c); return PETSC_SUCCESS; }
PetscErrorCode MatCreateSeqAIJ(MPI_Comm c, PetscInt m, PetscInt n, PetscInt, const PetscInt*, Mat* A) { *A = newmat(c); (*A)->m.lrows = m; alloc(*A, m, 1); return PETSC_SUCCESS; }
PetscErrorCode MatSetType(Mat A, MatType t) { int i = 0; for (; t[i] && i < 31; i++) A->m.type[i] = t[i]; A->m.type[i] = 0; return PETSC_SUCCESS; }
PetscErrorCode MatGetType(Mat A, MatType* t) { *t = A->m.type[0] ? A->m.type : MATMPIBAIJ; return PETSC_SUCCESS; }
PetscErrorCode MatSetSizes(Mat A, PetscInt m, PetscInt n, PetscInt M, PetscInt N) { A->m.lrows = m >= 0 ? m : M; int tot = M >= 0 ? M : m; alloc(A, tot, 1); return PETSC_SUCCESS; }
PetscErrorCode MatSetBlockSize(Mat A, PetscInt bs) { long n = (long)A->m.gbrows*A->m.bs; A->m.bs = bs; A->m.gbrows = n/bs; return PETSC_SUCCESS; }
PetscErrorCode MatSetFromOptions(Mat) { return PETSC_SUCCESS; }
PetscErrorCode MatSetUp(Mat) { return PETSC_SUCCESS; }
PetscErrorCode MatSetOption(Mat A, MatOption o, PetscBool b) { if (o == MAT_NEW_NONZERO_ALLOCATION_ERR) A->m.grow = !b; return PETSC_SUCCESS; }
// preallocation: PETSc refuses row lengths that are negative or exceed the number of columns (local ones for the diagonal part)
static void prealloc(Mat A, int bs, const PetscInt* d, const PetscInt* o, bool keep) { const int nr = A->m.lrows/bs, nc = A->m.gbrows*A->m.bs/bs; int* kd = (int*)malloc(4L*nr+4); int* ko = (int*)malloc(4L*nr+4);
  for (int i = 0; i < nr; i++) { if (d) { se_assert(d[i] >= 0 && d[i] <= nr, "preallocation fits the local columns"); kd[i] = d[i]; } if (o) { se_assert(o[i] >= 0 && o[i] <= nc, "preallocation fits the columns"); ko[i] = o[i]; } } if (keep && d && o) { A->m.dnz = kd; A->m.onz = ko; } }
PetscErrorCode MatSeqAIJSetPreallocation(Mat A, PetscInt, const PetscInt* d) { prealloc(A, 1, d, nullptr, false); return PETSC_SUCCESS; }
PetscErrorCode MatSeqBAIJSetPreallocation(Mat A, PetscInt bs, PetscInt, const PetscInt* d) { prealloc(A, bs, d, nullptr, false); return PETSC_SUCCESS; }
PetscErrorCode MatMPIAIJSetPreallocation(Mat A, PetscInt, const PetscInt* d, PetscInt, const PetscInt* o) { prealloc(A, 1, d, o, false); return PETSC_SUCCESS; }
PetscErrorCode MatMPIBAIJSetPreallocation(Mat A, PetscInt bs, PetscInt, const PetscInt* d, PetscInt, const PetscInt* o) { prealloc(A, bs, d, o, true); return PETSC_SUCCESS; }
PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType) { return PETSC_SUCCESS; }
PetscErrorCode MatAssemblyEnd(Mat, MatAssemblyType) { return PETSC_SUCCESS; }
PetscErrorCode MatZeroEntries(Mat A) { long n = (long)A->m.gbrows*A->m.bs; for (long i = 0; i < n*n; i++) A->m.a[i] = 0; return PETSC_SUCCESS; }
PetscErrorCode MatDestroy(Mat* A) { if (*A) { free((*A)->m.a); free((*A)->m.touched); free(*A); *A = nullptr; } return PETSC_SUCCESS; }
PetscErrorCode MatGetSize(Mat A, PetscInt* r, PetscInt* c) { *r = *c = A->m.gbrows*A->m.bs; return PETSC_SUCCESS; }
PetscErrorCode MatSetValuesBlocked(Mat A, PetscInt nr, const PetscInt r[], PetscInt nc, const PetscInt c[], const PetscScalar v[], InsertMode mode) {
  int bs = A->m.bs; long n = (long)A->m.gbrows*bs;
  for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { se_assert(r[i] >= 0 && r[i] < A->m.gbrows && c[j] >= 0 && c[j] < A->m.gbrows, "matrix block index in range"); A->m.touched[(long)r[i]*A->m.gbrows+c[j]] = 1; A->m.nset++;
    for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) { double& x = A->m.a[((long)r[i]*bs+a)*n + c[j]*bs+b]; double y = v[(i*bs+a)*(nc*bs)+j*bs+b]; if (mode == ADD_VALUES) x += y; else x = y; } }
  return PETSC_SUCCESS; }
PetscErrorCode MatSetValues(Mat A, PetscInt nr, const PetscInt r[], PetscInt nc, const PetscInt c[], const PetscScalar v[], InsertMode mode) {
  long n = (long)A->m.gbrows*A->m.bs;
  for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { se_assert(r[i] >= 0 && r[i] < n && c[j] >= 0 && c[j] < n, "matrix index in range"); A->m.nset++; A->m.touched[(long)(r[i]/A->m.bs)*A->m.gbrows+c[j]/A->m.bs] = 1; double& x = A->m.a[r[i]*n+c[j]]; if (mode == ADD_VALUES) x += v[i*nc+j]; else x = v[i*nc+j]; }
  return PETSC_SUCCESS; }
PetscErrorCode MatShellSetContext(Mat A, void* c) { A->m.ctx = c; return PETSC_SUCCESS; }
PetscErrorCode MatShellGetContext(Mat A, void* c) { *(void**)c = A->m.ctx; return PETSC_SUCCESS; }
PetscErrorCode MatShellSetOperation(Mat A, MatOperation o, void (*f)(void)) { if (o == MATOP_MULT) A->m.ctxop = (void*)f; return PETSC_SUCCESS; }
PetscErrorCode MatView(Mat, PetscViewer) { return PETSC_SUCCESS; }
// ordering of a graph: any permutation (chosen by the harness through the matrix, or the identity)
PetscInt pm_perm[64]; int pm_perm_set = 0;
void pm_set_ordering(const int* p, int n) { for (int i = 0; i < n; i++) pm_perm[i] = p[i]; pm_perm_set = 1; }
PetscErrorCode MatGetOrdering(Mat A, MatOrderingType, IS* r, IS* c) {
  int n = A->m.gbrows*A->m.bs; if (!pm_perm_set) for (int i = 0; i < n; i++) { // any permutation of the graph vertices
      long k = se_choose(lab("perm%", i), 0, n-1-i); for (int v = 0, t = 0; v < n; v++) { bool used = false; for (int j = 0; j < i; j++) if (pm_perm[j] == v) used = true; if (used) continue; if (t++ == k) { pm_perm[i] = v; break; } } }
  IS x = (IS)malloc(sizeof(_p_IS)), y = (IS)malloc(sizeof(_p_IS)); x->p = y->p = pm_perm; x->n = y->n = n; *r = x; *c = y; return PETSC_SUCCESS; }
PetscErrorCode ISGetIndices(IS s, const PetscInt** p) { *p = s->p; return PETSC_SUCCESS; }
PetscErrorCode ISRestoreIndices(IS, const PetscInt** p) { *p = nullptr; return PETSC_SUCCESS; }
PetscErrorCode ISDestroy(IS* s) { free(*s); *s = nullptr; return PETSC_SUCCESS; }
// ---- options
struct Opt { char name[64], s[96]; double r; long i; PetscInt a[8]; int na; bool isint; }; static Opt opts[16]; static int nopt = 0;
static Opt* find(const char* n) { for (int i = 0; i < nopt; i++) if (!strcmp(opts[i].name, n)) return &opts[i]; return nullptr; }
PetscErrorCode PetscOptionsGetString(PetscOptions, const char*, const char* n, char* s, size_t len, PetscBool* f) { Opt* o = find(n); if (f) *f = o ? PETSC_TRUE : PETSC_FALSE; if (o) { size_t i = 0; for (; o->s[i] && i+1 < len; i++) s[i] = o->s[i]; s[i] = 0; } return PETSC_SUCCESS; }
PetscErrorCode PetscOptionsGetReal(PetscOptions, const char*, const char* n, PetscReal* x, PetscBool* f) { Opt* o = find(n); if (f) *f = o ? PETSC_TRUE : PETSC_FALSE; if (o) *x = o->r; return PETSC_SUCCESS; }
PetscErrorCode PetscOptionsGetInt(PetscOptions, const char*, const char* n, PetscInt* x, PetscBool* f) { Opt* o = find(n); if (f) *f = o ? PETSC_TRUE : PETSC_FALSE; if (o) *x = o->isint ? (int)o->i : (int)o->r; return PETSC_SUCCESS; }
PetscErrorCode PetscOptionsGetBool(PetscOptions, const char*, const char* n, PetscBool* x, PetscBool* f) { Opt* o = find(n); if (f) *f = o ? PETSC_TRUE : PETSC_FALSE; if (o) *x = o->r != 0 ? PETSC_TRUE : PETSC_FALSE; return PETSC_SUCCESS; }
PetscErrorCode PetscOptionsHasName(PetscOptions, const char*, const char* n, PetscBool* f) { *f = find(n) ? PETSC_TRUE : PETSC_FALSE; return PETSC_SUCCESS; }
PetscErrorCode PetscOptionsGetIntArray(PetscOptions, const char*, const char* k, PetscInt x[], PetscInt* n, PetscBool* f) { Opt* o = find(k); if (f) *f = o ? PETSC_TRUE : PETSC_FALSE; int m = 0; if (o) for (; m < o->na && m < *n; m++) x[m] = o->a[m]; *n = m; return PETSC_SUCCESS; }
}
static Opt* mk(const char* n) { Opt* o = find(n); if (!o) { o = &opts[nopt++]; strcpy(o->name, n); o->s[0] = 0; o->r = 0; o->isint = false; o->na = 0; } return o; }
void pm_option_str(const char* n, const char* v) { strcpy(mk(n)->s, v); }
void pm_option_real(const char* n, double v) { mk(n)->r = v; }
void pm_option_int(const char* n, long v) { Opt* o = mk(n); o->i = v; o->isint = true; }
void pm_option_ints(const char* n, const int* a, int k) { Opt* o = mk(n); for (int i = 0; i < k; i++) o->a[i] = a[i]; o->na = k; }
void pm_options_clear() { nopt = 0; }
PmMat* pm_mat(void* A) { return &((Mat)A)->m; }
void* pm_make_mat(int nb, int bs, bool world) { Mat A = newmat(world ? MPI_COMM_WORLD : MPI_COMM_SELF); alloc(A, nb, bs); A->m.lrows = nb*bs; return A; }
double* pm_vec(void* v) { return ((Vec)v)->a; }
