// Executable model of the PETSc / MPI services the code under test uses (see petscmodel.cpp).
#pragma once
struct PmBlock {};                       // thrown by a blocking operation whose partner has not posted yet
// Run n ranks of a program in one process: a rank that would block is abandoned and re-executed from its start
// once another rank has progressed; posted messages and collective contributions are kept by sequence number.
template<class F> bool pm_run_ranks(int n, F prog);
void pm_begin_world(int n);              // forget all messages
void pm_begin_rank(int r); void pm_end_rank();
int pm_rank(); int pm_size();
void pm_option_str(const char* name, const char* val);
void pm_option_real(const char* name, double v);
void pm_option_int(const char* name, long v); void pm_option_ints(const char* name, const int* a, int n);
void pm_options_clear();
struct PmMat { int gbrows; int bs; double* a; char* touched; int nset; void* ctx; void* ctxop; char type[32]; int insertmode; int* adj; const int* perm; int lrows; int grow; int* dnz; int* onz; };
PmMat* pm_mat(void* A);
template<class F> bool pm_run_ranks(int n, F prog) {
  pm_begin_world(n); bool done[8] = {false,false,false,false,false,false,false,false};
  for (int round = 0; round < 60; round++) {
    bool all = true;
    for (int r = 0; r < n; r++) if (!done[r]) {
      pm_begin_rank(r);
      try { prog(r); done[r] = true; pm_end_rank(); } catch (const PmBlock&) { all = false; }
    }
    if (all) return true;
  }
  return false;
}
double* pm_vec(void*);
