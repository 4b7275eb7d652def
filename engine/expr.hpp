// Expression DAG, exact rational arithmetic and rational-function normal forms.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <stdexcept>
#include <cmath>
#include <functional>

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct TooBig : std::runtime_error { using std::runtime_error::runtime_error; };

enum Kind : uint8_t {
  RCONST, RVAR, RADD, RMUL, RDIV, RSQRT, RUF,        // reals
  BCONST, BLT, BLE, BEQ, BNOT, BAND, BOR, BICMP,     // booleans
  ICONST, IVAR, IBIN, ICAST, IITE                    // bit vectors
};

struct RF;
struct Expr {
  Kind k; uint8_t width = 0;      // width of bit vectors
  int op = 0;                     // UF id / int opcode / predicate
  Expr *a = nullptr, *b = nullptr, *c = nullptr;
  std::vector<Expr*> args;        // RUF
  mpq_class q; uint64_t iv = 0;   // constants
  std::string name;               // variables
  int atom = -1;                  // RVAR: polynomial atom index
  bool varfree = false; double dval = 0;  // variable-free reals: approximate value
  RF* rf = nullptr; bool rfbig = false;
  int id = 0;
  bool isReal() const { return k <= RUF; }
  bool isBool() const { return k >= BCONST && k <= BICMP; }
  bool isInt() const { return k >= ICONST; }
};

// ---- construction
Expr* mkQ(const mpq_class& q);
Expr* mkD(double d);               // simplest rational that rounds to d
Expr* mkInt(long v);
Expr* mkVar(const std::string& name);         // existing or new plain real variable
Expr* mkAdd(Expr*, Expr*);
Expr* mkSub(Expr*, Expr*);
Expr* mkMul(Expr*, Expr*);
Expr* mkDiv(Expr*, Expr*);
Expr* mkNeg(Expr*);
Expr* mkSqrtNode(Expr*);
Expr* mkUF(const std::string& f, const std::vector<Expr*>& args);
const std::string& ufName(int id);
Expr* mkB(bool);
Expr* mkLT(Expr*, Expr*);
Expr* mkLE(Expr*, Expr*);
Expr* mkEQ(Expr*, Expr*);
Expr* mkNot(Expr*);
Expr* mkAnd(Expr*, Expr*);
Expr* mkOr(Expr*, Expr*);
Expr* mkIConst(uint64_t v, int w);
Expr* mkIVar(const std::string& n, int w);
Expr* mkIBin(int op, int w, Expr* a, Expr* b);      // 0 add 1 sub 2 mul 3 udiv 4 sdiv 5 urem 6 srem 7 shl 8 lshr 9 ashr 10 and 11 or 12 xor
Expr* mkICast(int op, int w, Expr* a);              // LLVM cast opcode
Expr* mkICmp(int pred, Expr* a, Expr* b);
double ratToDouble(const mpq_class&);
mpq_class doubleToExact(double d);

// ---- polynomials
typedef int MonoId;
struct Term { MonoId m; mpq_class c; };
typedef std::vector<Term> Poly;    // sorted by MonoId
struct RF { Poly n; std::vector<std::pair<int,int>> d; };   // numerator / prod factor^exp

struct Atom {
  std::string name; Expr* e = nullptr;
  bool alg = false; Poly rel;        // alg: atom^2 == rel
  Expr* nonneg = nullptr;            // alg from a square root: this quotient is >= 0  (atom * prod(dens) sign)
  std::vector<std::pair<int,int>> sgnden;  // atom/prod(factors) >= 0
  bool hasSign = false;
  Expr* sqrtArg = nullptr;           // the argument, for numeric evaluation
  bool pos = false, nonnegFlag = false;
  bool hasLo = false, hasHi = false; mpq_class lo, hi;
  bool input = false;                // free variable of the harness
  std::string uf; std::vector<Expr*> ufargs;
};
extern std::vector<Atom> atoms;
extern std::vector<Poly> factors;
extern size_t polyLimit;

RF* rfOf(Expr*);                     // throws TooBig
bool rfIsZero(const RF*);
bool rfConst(const RF* r, mpq_class& q);
RF rfAdd(const RF&, const RF&); RF rfMul(const RF&, const RF&); RF rfNeg(const RF&);
Expr* rfToExpr(const RF&);
int polySign(const Poly&);           // 2: >0, 1: >=0, 0: unknown, -1: <=0, -2: <0, 3: zero
int rfSign(const RF&);
std::string polySmt(const Poly&);
void polyAtoms(const Poly&, std::set<int>&);
bool polySqrt(const Poly& p, Poly& r);
Poly pMul(const Poly&, const Poly&); Poly pAdd(const Poly&, const Poly&); Poly pConst(const mpq_class&); Poly pAtom(int);
Poly pReduce(const Poly&);
bool pDivExact(const Poly& p, const Poly& d, Poly& q);
int newAtom(const std::string& name);
// square root: value r or {perfect square root polynomial quotient whose sign must be decided}
struct SqrtRes { bool perfect; Expr* value; };
Expr* exAbs(Expr* x);                 // |x| without case distinction, or null
SqrtRes exSqrt(Expr* x);             // perfect: value v with v^2==x, sign to be decided by the caller
Expr* exPow(Expr* x, Expr* e);
Expr* exTrig(const std::string& f, Expr* x);
Expr* diffExpr(Expr* e, Expr* var, std::unordered_map<Expr*,Expr*>& memo);

// numeric evaluation
struct EvalError : std::runtime_error { using std::runtime_error::runtime_error; };
struct Env {
  std::unordered_map<std::string, double> val;
  std::unordered_map<std::string, uint64_t> ival;
  std::unordered_map<Expr*, double> memo;
  double real(Expr*); bool boolean(Expr*); uint64_t integer(Expr*);
};
double ufNative(const std::string& f, const std::vector<double>& a);
std::string toStr(Expr* e, int depth = 6);
int signKey(Expr* e, int& orient);
const Poly& signPoly(int id);
int polyKey(const Poly&, int& orient);
bool zeroModulo(const Poly& N, std::vector<Poly> zs, const std::function<bool(const Poly&)>& nonzero, int depth = 0);
