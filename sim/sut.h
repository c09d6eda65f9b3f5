// Thin layer over the code under test: everything that includes repository or
// Eigen headers is in sut.cc / seam.cc, compiled with basic-block hooks.
// Every function catches what the library throws and reports it.
#pragma once
#include "core.h"

struct SutSolver;
struct SutData;
struct SutVar;

enum Store { OWNED = 0, MAPPED = 1, MAPPED_GUARD = 2, MAPPED_SEQ = 3 };
enum Stream { ST_DEFAULT = 0, ST_CUSTOM = 1 };

// ctor: 0 plain ints, 1 Vector4d (MPC only)
void sut_init();  // once per process: statics of third-party headers
int sut_new_solver(const Dims& d, int ctor, int tag, SutSolver** out, std::string* what);
// Arbitrary (possibly inadmissible) sizes.
int sut_try_construct(int kind, int a, int b, int c, int e, std::string* what);
void sut_delete_solver(SutSolver*);
int sut_update_options(SutSolver*, const Opts& o, std::string* what);
int sut_fetch_options(int kind, int which, Opts* o, std::string* what);  // inside the world: preemptible, may fail
void sut_stock_options(int kind, int which, Opts* o);  // 0 default 1 reliable 2 plain
void sut_sanitize(Opts* o);                           // ValidateOptions

// Problem data in the flavour asked for.  Sizes may be overridden by `shape`
// entries (see ShapeBug) to build inconsistent data.
struct ShapeBug {
  int field = -1;  // which matrix/sequence (dense: H f G h A b; MPC: NSEQ, x0)
  int drow = 0, dcol = 0, dlen = 0;
};
int sut_make_data(const Problem& p, int store, int tag, const std::vector<ShapeBug>& bugs,
                  SutData** out, std::string* what);
void sut_delete_data(SutData*);
int sut_clone_data(const SutData*, int tag, SutData** out);  // OWNED only
int sut_assign_data(SutData* dst, const SutData* src);        // OWNED only
void sut_poke_data(SutData*, size_t k, double v);
int sut_clone_var(const SutVar*, int tag, SutVar** out);      // OWNED only
// Raw bits of everything the data holder refers to.
void sut_data_bits(const SutData*, Vec* out);
int sut_make_var(const Dims& d, int store, int tag, const Point& init, const int dsize[4],
                 SutVar** out, std::string* what);
void sut_delete_var(SutVar*);
void sut_set_var(SutVar*, const Point& p);
void sut_get_var(const SutVar*, Point* p);

// The call.  tag: ledger owner while inside.
void sut_solve(SutSolver*, const SutData*, SutVar*, int stream, Reply* r);

// ---- the component seam ----------------------------------------------------------
// The same algorithm template, with the repository's components behind thin
// wrappers that let the simulator watch and disturb the linear algebra.
struct NewtonStep {
  const Problem* p;
  double sigma;
  const double *xz, *xl, *xv, *xy;       // inner iterate
  const double *bz, *bl, *bv, *by;       // proximal centre
  const double *rz, *rl, *rv;            // right hand side
  double *dz, *dl, *dv, *dy;             // direction (may be disturbed)
};
struct SeamHooks {
  virtual ~SeamHooks() {}
  // return false to make the factorisation fail
  virtual bool on_initialize(double) { return true; }
  virtual bool on_solve(NewtonStep&) { return true; }
  virtual void on_margin(double*, int) {}
};
struct Seam;
int seam_new(const Dims& d, int tag, Seam** out, std::string* what);
void seam_delete(Seam*);
int seam_update_options(Seam*, const Opts& o, std::string* what);
void seam_current_options(Seam*, Opts* o);
void seam_solve(Seam*, const Problem& p, const SutData*, SutVar*, int stream,
                SeamHooks* hooks, Reply* r);

// ---- containers -------------------------------------------------------------------
struct SutSeq;  // MatrixSequence
struct SutMap;  // MapMatrixSequence
int seq_new(int len, int rows, int cols, int tag, SutSeq** out);  // INT_MINs: default ctor
int seq_copy_new(const SutSeq*, int tag, SutSeq** out);
int seq_move_new(SutSeq*, int tag, SutSeq** out);
int seq_assign(SutSeq* dst, const SutSeq* src);
int seq_move_assign(SutSeq* dst, SutSeq* src);
void seq_delete(SutSeq*);
struct SeqShapeOut {
  int len, rows, cols, size;
  const double* data;
  int64_t held;  // doubles really held (from the heap ledger view)
};
void seq_shape_of(const SutSeq*, SeqShapeOut*);
double* seq_data(SutSeq*);
int seq_get(const SutSeq*, int k, int i, int j, double* out);
int seq_set(SutSeq*, int k, int i, int j, double v);
int map_new(const double* data, int len, int rows, int cols, int tag, SutMap** out);
int map_from_seq(const SutSeq*, int tag, SutMap** out);
int map_copy_new(const SutMap*, int tag, SutMap** out);
int map_assign(SutMap* dst, const SutMap* src);
void map_delete(SutMap*);
void map_shape_of(const SutMap*, SeqShapeOut*);
int map_get(const SutMap*, int k, int i, int j, double* out);
