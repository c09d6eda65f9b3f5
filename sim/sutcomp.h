// Components of the library used directly; see sutcomp.cc.
#pragma once
#include "core.h"
#include "sut.h"

struct CData;  // DenseData or MpcData over a SutData
struct CVec;   // a caller's vector
struct CVar;   // FullVariable
struct CRes;   // FullResidual
struct CFeas;  // FullFeasibility
struct CLin;   // DenseCholeskySolver or RiccatiLinearSolver

int cdata_new(const SutData* d, int tag, CData** out);
void cdata_delete(CData* c);
// op: 0 H 1 A 2 A' 3 G 4 G' (y <- a M x + b y)  5 f 6 h 7 b (y <- a w + y)
int cdata_apply(const CData* c, int op, const CVec* x, double a, double b, CVec* y, int tag);
double cdata_forcing(const CData* c, int tag);

int cvec_new(int n, int tag, CVec** out);
void cvec_delete(CVec* c);
double* cvec_ptr(CVec* c, int* n);

int cvar_new(int nz, int nl, int nv, int tag, CVar** out);
void cvar_delete(CVar* c);
void cvar_ptrs(CVar* c, double* p[4], int n[4]);
int cvar_link(CVar* c, const CData* d);
int cvar_fill(CVar* c, double a);
int cvar_margin(CVar* c);
int cvar_axpy(CVar* c, double a, const CVar* x);
int cvar_copy(CVar* c, const CVar* x);
int cvar_project(CVar* c);
int cvar_norm(const CVar* c, double* out);
bool cvar_same_size(const CVar* c, const CVar* x);

int cres_new(int nz, int nl, int nv, int tag, CRes** out);
void cres_delete(CRes* c);
void cres_ptrs(CRes* c, double* p[3], int n[3]);
int cres_link(CRes* c, const CData* d);
int cres_alpha(CRes* c, double a);
int cres_inner(CRes* c, const CVar* x, const CVar* xbar, double sigma);
int cres_natural(CRes* c, const CVar* x);
int cres_penalized(CRes* c, const CVar* x);
int cres_negate(CRes* c);
int cres_fill(CRes* c, double a);
int cres_norms(const CRes* c, double out[5]);  // norm merit z l v

int cfeas_new(int nz, int nl, int nv, int tag, CFeas** out);
void cfeas_delete(CFeas* c);
int cfeas_link(CFeas* c, const CData* d);
int cfeas_check(CFeas* c, const CVar* x, double tol, int* verdict);  // 0 none 1 primal 2 dual 3 both

int clin_new(const Dims& d, int tag, CLin** out);
void clin_delete(CLin* c);
int clin_link(CLin* c, const CData* d);
int clin_alpha(CLin* c, double a);
int clin_factor(CLin* c, const CVar* x, const CVar* xbar, double sigma, bool* ok);
int clin_solve(const CLin* c, const CRes* r, CVar* dx, bool* ok);
