// C17: sequences, views and problem containers against a reference model, with
// allocation failures.
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>

#include "exec.h"

using rt::ev;
using rt::probe;
using rt::violate;

namespace {
struct MSeq {
  SutSeq* s = nullptr;
  int tag = 0;
  int len = 0, rows = 1, cols = 1;
  Vec v;
  std::vector<char> known;  // fresh storage is not initialised
  bool vague = false;       // moved from
  bool mixed = false;       // holds a block another sequence allocated, or the reverse
};
struct MMap {
  SutMap* m = nullptr;
  int tag = 0;
  int len = 0, rows = 1, cols = 1;
  int src = -1;        // sequence slot aliased
  int64_t src_gen = 0; // storage generation of that sequence
  int buf = -1;        // or raw buffer
  bool dead = false;   // what it referred to is gone
};
struct MData {
  SutData* d = nullptr;
  int tag = 0;
  Vec bits;
  Dims dims;
  bool vague = false;
};
}  // namespace

void run_container_world(const Plan& p) {
  const int NS = 6, NM = 5, NB = 2, ND = 4;
  MSeq S[NS];
  MMap M[NM];
  MData D[ND];
  int64_t gen[NS] = {0};
  Vec B[NB];
  for (int b = 0; b < NB; b++) {
    B[b].resize(240);
    for (size_t i = 0; i < B[b].size(); i++) B[b][i] = b * 1000 + (double)i;
  }
  int next = 0;
  bool after_fault = false;
  double stamp = 1;

  auto check_seq = [&](int i) {
    MSeq& m = S[i];
    if (!m.s) return;
    SeqShapeOut o;
    seq_shape_of(m.s, &o);
    int64_t want = (int64_t)o.len * o.rows * o.cols;
    if (o.size != want) violate("shape", "sequence reports size %d for %d x %d x %d", o.size, o.len, o.rows, o.cols);
    if (m.vague) return;
    int64_t held = (int64_t)rt::block_size(o.data);
    if (want * 8 > held)
      violate("shape", "sequence reports %d x %d x %d = %lld numbers and holds %lld bytes", o.len, o.rows, o.cols,
              (long long)want, (long long)held);
    if (o.len != m.len || o.rows != m.rows || o.cols != m.cols)
      violate("shape", "sequence is %d x %d x %d, should be %d x %d x %d", o.len, o.rows, o.cols, m.len, m.rows, m.cols);
    for (size_t k = 0; k < m.v.size(); k++)
      if (m.known[k] && memcmp(&o.data[k], &m.v[k], 8))
        violate("contents", "sequence element %zu is %.17g, should be %.17g", k, o.data[k], m.v[k]);
  };
  // After a failed operation: whatever it is now, it must be consistent.
  auto settle = [&](int i) {
    MSeq& m = S[i];
    SeqShapeOut o;
    seq_shape_of(m.s, &o);
    int64_t want = (int64_t)o.len * o.rows * o.cols;
    int64_t held = (int64_t)rt::block_size(o.data);
    probe(rt::P_CONTAINER_AFTER_FAILURE);
    if (o.len < 0 || o.size < 0 || want * 8 > held || (int64_t)o.size * 8 > held)
      violate("shape", "after a failed assignment the sequence reports %d x %d x %d and holds %lld bytes", o.len, o.rows, o.cols,
              (long long)held);
    m.len = o.len;
    m.rows = o.rows;
    m.cols = o.cols;
    m.v.assign(o.data, o.data + want);
    m.known.assign(want, 1);
    m.vague = false;
  };
  int64_t gens = 0;
  auto orphan = [&](int i) { gen[i] = ++gens; };
  auto faults = [&](const Op& op) {
    rt::OpFaults f;
    f.alloc_fail_at = op.get("af");
    f.alloc_fail_n = 1 + op.get("afn");
    return f;
  };
  auto drop_seq = [&](int i) {
    if (!S[i].s) return;
    seq_delete(S[i].s);
    if (!S[i].mixed && rt::heap_live(S[i].tag, nullptr)) violate("leak", "destroyed sequence still holds memory");
    S[i] = MSeq();
    orphan(i);
  };
  auto drop_map = [&](int i) {
    if (!M[i].m) return;
    map_delete(M[i].m);
    if (rt::heap_live(M[i].tag, nullptr)) violate("leak", "destroyed view still holds memory");
    M[i] = MMap();
  };
  auto map_alive = [&](const MMap& m) {
    if (m.src >= 0) return gen[m.src] == m.src_gen;
    return true;
  };
  auto check_map = [&](int i) {
    MMap& m = M[i];
    if (!m.m) return;
    SeqShapeOut o;
    map_shape_of(m.m, &o);
    if (o.len != m.len || o.rows != m.rows || o.cols != m.cols || (int64_t)o.size != (int64_t)m.len * m.rows * m.cols)
      violate("view-shape", "view is %d x %d x %d (size %d), should be %d x %d x %d", o.len, o.rows, o.cols, o.size, m.len,
              m.rows, m.cols);
    if (!map_alive(m)) return;
    const double* want = m.buf >= 0 ? B[m.buf].data() : m.src >= 0 && S[m.src].s ? seq_data(S[m.src].s) : nullptr;
    if (o.data != want) violate("view-alias", "view does not refer to the memory it was made from");
  };
  auto finish_op = [&](int rc, bool failed_alloc, bool bad_args, const char* what) {
    if (bad_args) {
      probe(rt::P_REJECTED_INPUT);
      if (rc != X_RUNTIME && rc != X_STDEXC && !(rc == X_BAD_ALLOC && failed_alloc)) violate("accepted", "%s: invalid arguments gave %s", what, thrown_names[rc]);
    } else if (rc == X_BAD_ALLOC) {
      if (!failed_alloc) violate("failed", "%s threw bad_alloc with memory available", what);
    } else if (rc != X_NONE) {
      violate("failed", "%s threw %s", what, thrown_names[rc]);
    }
    if (rc == X_BAD_ALLOC) after_fault = true;
  };

  for (const Op& op : p.ops) {
    rt::R->ops++;
    rt::R->cur_op++;
    rt::R->solves++;
    const std::string& n = op.name;
    int i = (int)(op.get("s") % NS), j = (int)(op.get("from") % NS);
    int rc = 0;
    if (n == "env") {
      Actor a;
      a.run_op(op);
      continue;
    } else if (n == "new") {
      int64_t len = op.get("len"), r = 1 + op.get("rows"), c = 1 + op.get("cols");
      if (op.get("plain")) len = r = c = INT_MIN;
      bool big = op.get("big") != 0;
      if (big) {  // products beyond what an int can hold
        static const int64_t tab[6][3] = {{65536, 256, 256}, {2, 65536, 65536}, {1 << 20, 1 << 10, 1 << 2},
                                          {3, 46341, 46341}, {65537, 65536, 1}, {INT_MAX, 2, 1}};
        len = tab[op.get("big") % 6][0];
        r = tab[op.get("big") % 6][1];
        c = tab[op.get("big") % 6][2];
      }
      bool bad = !op.get("plain") && (len < 0 || r <= 0 || c <= 0);
      drop_seq(i);
      MSeq m;
      m.tag = 5000 + ++next;
      rt::op_begin(faults(op));
      rc = seq_new((int)len, (int)r, (int)c, m.tag, &m.s);
      rt::op_end();
      if (big) {
        rt::fired(rt::F_BAD_DIMENSIONS);
        probe(rt::P_REJECTED_INPUT);
        if (rc == 0) {
          SeqShapeOut o;
          seq_shape_of(m.s, &o);
          int64_t held = (int64_t)rt::block_size(o.data), lim = held / 8;
          if ((__int128)o.len * o.rows * o.cols > lim)
            violate("shape", "sequence of %d x %d x %d accepted with %lld bytes", o.len, o.rows, o.cols, (long long)held);
          seq_delete(m.s);
        }
        if (rt::heap_live(m.tag, nullptr)) violate("leak", "rejected sequence keeps memory");
      } else {
        if (bad) rt::fired(rt::F_BAD_DIMENSIONS);
        finish_op(rc, rt::cur->c.alloc_failed, bad, "constructing a sequence");
        if (rc) {
          if (rt::heap_live(m.tag, nullptr)) violate("leak", "failed construction keeps memory");
        } else {
          if (op.get("plain")) {
            len = 0;
            r = c = 1;
          }
          m.len = (int)len;
          m.rows = (int)r;
          m.cols = (int)c;
          m.v.assign(len * r * c, 0);
          m.known.assign(m.v.size(), 0);
          S[i] = m;
        }
      }
    } else if (n == "copy" || n == "move") {
      if (!S[j].s || i == j || S[j].vague) continue;
      drop_seq(i);
      MSeq m = S[j];
      m.tag = 5000 + ++next;
      m.s = nullptr;
      rt::op_begin(faults(op));
      rc = n == "copy" ? seq_copy_new(S[j].s, m.tag, &m.s) : seq_move_new(S[j].s, m.tag, &m.s);
      rt::op_end();
      finish_op(rc, rt::cur->c.alloc_failed, false, n == "copy" ? "copying a sequence" : "moving a sequence");
      if (rc) {
        if (n == "copy" && rt::heap_live(m.tag, nullptr)) violate("leak", "failed copy keeps memory");
        if (n == "move") settle(j);
      } else {
        if (n == "move") {
          m.mixed = S[j].mixed = true;
          S[j].vague = true;
          S[j].v.clear();
          S[j].known.clear();
          orphan(j);
        } else {
          m.mixed = false;
        }
        S[i] = m;
        orphan(i);
        SeqShapeOut a, b;
        seq_shape_of(S[i].s, &a);
        seq_shape_of(S[j].s, &b);
        if (a.size && a.data == b.data) violate("shared", "copy of a sequence shares its memory");
      }
    } else if (n == "assign") {
      if (!S[i].s || !S[j].s || S[j].vague) continue;
      rt::op_begin(faults(op));
      rc = seq_assign(S[i].s, S[j].s);
      rt::op_end();
      finish_op(rc, rt::cur->c.alloc_failed, false, "assigning a sequence");
      if (i != j) orphan(i);
      if (rc) {
        if (!S[i].vague) settle(i);
      } else if (i != j) {
        int tag = S[i].tag;
        SutSeq* s = S[i].s;
        bool mixed = S[i].mixed;
        S[i] = S[j];
        S[i].mixed = mixed;
        S[i].tag = tag;
        S[i].s = s;
        SeqShapeOut a, b;
        seq_shape_of(S[i].s, &a);
        seq_shape_of(S[j].s, &b);
        if (a.size && a.data == b.data) violate("shared", "assigned sequence shares memory");
      }
    } else if (n == "massign") {
      if (!S[i].s || !S[j].s || i == j || S[j].vague) continue;
      rt::op_begin(faults(op));
      rc = seq_move_assign(S[i].s, S[j].s);
      rt::op_end();
      finish_op(rc, rt::cur->c.alloc_failed, false, "moving into a sequence");
      if (rc == 0) {
        int ti = S[i].tag, tj = S[j].tag;
        SutSeq *si = S[i].s, *sj = S[j].s;
        S[i] = S[j];
        S[i].s = si;
        S[j].s = sj;
        S[i].tag = ti;
        S[j].tag = tj;
        S[i].mixed = S[j].mixed = true;
        S[j].vague = true;
        S[j].v.clear();
        S[j].known.clear();
        orphan(i);
        orphan(j);
      }
    } else if (n == "del") {
      drop_seq(i);
    } else if (n == "set" || n == "get") {
      MSeq& m = S[i];
      if (!m.s || m.vague) continue;
      int64_t k = op.get("k");
      int r = (int)(op.get("i") % m.rows), c = (int)(op.get("j") % m.cols);
      bool bad = k < 0 || k >= m.len;
      double v = stamp += 1.25, got = 0;
      rt::op_begin(rt::OpFaults());
      rc = n == "set" ? seq_set(m.s, (int)k, r, c, v) : seq_get(m.s, (int)k, r, c, &got);
      rt::op_end();
      finish_op(rc, false, bad, "element access");
      if (!bad) {
        size_t at = (size_t)k * m.rows * m.cols + (size_t)c * m.rows + r;
        if (n == "set") {
          m.v[at] = v;
          m.known[at] = 1;
        } else if (m.known[at] && got != m.v[at]) {
          violate("contents", "element (%d,%d) of matrix %d is %.17g, should be %.17g", r, c, (int)k, got, m.v[at]);
        }
      }
    } else if (n == "fill") {
      MSeq& m = S[i];
      if (!m.s || m.vague) continue;
      double* q = seq_data(m.s);
      for (size_t k = 0; k < m.v.size(); k++) {
        m.v[k] = q[k] = stamp += 0.5;
        m.known[k] = 1;
      }
    } else if (n == "map") {
      int w = (int)(op.get("m") % NM);
      int64_t len = 1 + op.get("len"), r = 1 + op.get("rows"), c = 1 + op.get("cols");
      int b = (int)(op.get("b") % NB);
      bool null = op.get("null") != 0;
      bool bad = len <= 0 || r <= 0 || c <= 0 || null;
      if (!bad && len * r * c > (int64_t)B[b].size()) continue;
      drop_map(w);
      MMap m;
      m.tag = 5000 + ++next;
      rt::op_begin(faults(op));
      rc = map_new(null ? nullptr : B[b].data(), (int)len, (int)r, (int)c, m.tag, &m.m);
      rt::op_end();
      if (bad) rt::fired(rt::F_BAD_DIMENSIONS);
      finish_op(rc, rt::cur->c.alloc_failed, bad, "constructing a view");
      if (rc == 0) {
        m.len = (int)len;
        m.rows = (int)r;
        m.cols = (int)c;
        m.buf = b;
        M[w] = m;
      } else if (rt::heap_live(m.tag, nullptr)) {
        violate("leak", "failed view keeps memory");
      }
    } else if (n == "mapseq") {
      int w = (int)(op.get("m") % NM);
      if (!S[i].s || S[i].vague) continue;
      drop_map(w);
      MMap m;
      m.tag = 5000 + ++next;
      rt::op_begin(faults(op));
      rc = map_from_seq(S[i].s, m.tag, &m.m);
      rt::op_end();
      finish_op(rc, rt::cur->c.alloc_failed, false, "viewing a sequence");
      if (rc == 0) {
        m.len = S[i].len;
        m.rows = S[i].rows;
        m.cols = S[i].cols;
        m.src = i;
        m.src_gen = gen[i];
        M[w] = m;
      }
    } else if (n == "mapcopy" || n == "mapassign") {
      int w = (int)(op.get("m") % NM), f = (int)(op.get("from") % NM);
      if (!M[f].m || w == f) continue;
      if (n == "mapcopy") {
        drop_map(w);
        MMap m = M[f];
        m.tag = 5000 + ++next;
        m.m = nullptr;
        rt::op_begin(faults(op));
        rc = map_copy_new(M[f].m, m.tag, &m.m);
        rt::op_end();
        finish_op(rc, rt::cur->c.alloc_failed, false, "copying a view");
        if (rc == 0) M[w] = m;
      } else {
        if (!M[w].m) continue;
        rt::op_begin(faults(op));
        rc = map_assign(M[w].m, M[f].m);
        rt::op_end();
        finish_op(rc, rt::cur->c.alloc_failed, false, "assigning a view");
        if (rc == 0) {
          int tag = M[w].tag;
          SutMap* q = M[w].m;
          M[w] = M[f];
          M[w].tag = tag;
          M[w].m = q;
        }
      }
    } else if (n == "mapget") {
      MMap& m = M[(int)(op.get("m") % NM)];
      if (!m.m || !map_alive(m)) continue;
      int64_t k = op.get("k");
      int r = (int)(op.get("i") % m.rows), c = (int)(op.get("j") % m.cols);
      bool bad = k < 0 || k >= m.len;
      double got = 0;
      rt::op_begin(rt::OpFaults());
      rc = map_get(m.m, (int)k, r, c, &got);
      rt::op_end();
      finish_op(rc, false, bad, "view access");
      if (!bad) {
        size_t at = (size_t)k * m.rows * m.cols + (size_t)c * m.rows + r;
        if (m.buf >= 0) {
          if (got != B[m.buf][at])
            violate("contents", "view element (%d,%d) of matrix %d is %.17g, should be %.17g", r, c, (int)k, got, B[m.buf][at]);
        } else if (S[m.src].known[at] && got != S[m.src].v[at]) {
          violate("contents", "view element (%d,%d) of matrix %d is %.17g, should be %.17g", r, c, (int)k, got, S[m.src].v[at]);
        }
      }
    } else if (n == "poke") {
      B[(int)(op.get("b") % NB)][(size_t)op.get("k") % 240] = stamp += 2;
    } else if (n == "data") {
      int w = (int)(op.get("w") % ND);
      if (D[w].d) {
        sut_delete_data(D[w].d);
        if (rt::heap_live(D[w].tag, nullptr)) violate("leak", "destroyed problem data still holds memory");
        D[w] = MData();
      }
      MData m;
      m.tag = 5000 + ++next;
      m.dims = dims_of(op);
      Problem q = make_problem(m.dims, (int)op.get("fam"), (uint64_t)op.get("pseed"));
      rt::op_begin(faults(op));
      rc = sut_make_data(q, OWNED, m.tag, {}, &m.d, nullptr);
      rt::op_end();
      finish_op(rc, rt::cur->c.alloc_failed, false, "building problem data");
      if (rc) {
        if (rt::heap_live(m.tag, nullptr)) violate("leak", "failed problem data keeps memory");
      } else {
        sut_data_bits(m.d, &m.bits);
        // what was put in must be what is there
        size_t n0 = 0;
        if (m.dims.kind == DENSE) n0 = q.H.size() + q.f.size() + q.G.size() + q.h.size() + q.A.size() + q.b.size();
        else {
          for (auto& s : q.seq) n0 += s.size();
          n0 += q.x0.size();
        }
        if (n0 != m.bits.size()) violate("contents", "problem data holds %zu numbers, %zu were put in", m.bits.size(), n0);
        D[w] = m;
      }
    } else if (n == "dclone" || n == "dassign") {
      int w = (int)(op.get("w") % ND), f = (int)(op.get("from") % ND);
      if (!D[f].d || w == f || D[f].vague) continue;
      if (n == "dclone") {
        if (D[w].d) {
          sut_delete_data(D[w].d);
          if (rt::heap_live(D[w].tag, nullptr)) violate("leak", "destroyed problem data still holds memory");
          D[w] = MData();
        }
        MData m = D[f];
        m.tag = 5000 + ++next;
        m.d = nullptr;
        rt::op_begin(faults(op));
        rc = sut_clone_data(D[f].d, m.tag, &m.d);
        rt::op_end();
        finish_op(rc, rt::cur->c.alloc_failed, false, "copying problem data");
        if (rc) {
          if (rt::heap_live(m.tag, nullptr)) violate("leak", "failed copy of problem data keeps memory");
        } else {
          D[w] = m;
        }
      } else {
        if (!D[w].d || D[w].dims.kind != D[f].dims.kind) continue;
        // No failing allocation here: the data holds plain Eigen objects, whose
        // own assignment does not survive one (they free before they allocate).
        rt::op_begin(rt::OpFaults());
        rc = sut_assign_data(D[w].d, D[f].d);
        rt::op_end();
        finish_op(rc, rt::cur->c.alloc_failed, false, "assigning problem data");
        if (rc) {
          D[w].vague = true;
        } else {
          D[w].bits = D[f].bits;
          D[w].dims = D[f].dims;
          D[w].vague = false;
        }
      }
    } else if (n == "dpoke") {
      MData& m = D[(int)(op.get("w") % ND)];
      if (!m.d || m.vague || m.bits.empty()) continue;
      size_t k = (size_t)op.get("k") % m.bits.size();
      m.bits[k] = stamp += 3;
      sut_poke_data(m.d, k, m.bits[k]);
    }
    ev("%s -> %s", n.c_str(), thrown_names[rc]);
    rt::state_mix(n.size() * 131 + n[0] * 7 + rc * 1000 + (i * NS + j));
    for (int k = 0; k < NS; k++)
      if (S[k].s) rt::state_mix(k * 100000 + S[k].len * 1000 + S[k].rows * 30 + S[k].cols + (S[k].vague ? 7 : 0));
    rt::op_begin(rt::OpFaults());
    for (int k = 0; k < NS; k++) check_seq(k);
    for (int k = 0; k < NM; k++) check_map(k);
    for (int k = 0; k < ND; k++)
      if (D[k].d && !D[k].vague) {
        Vec b;
        sut_data_bits(D[k].d, &b);
        if (b.size() != D[k].bits.size() || (b.size() && memcmp(b.data(), D[k].bits.data(), b.size() * 8)))
          violate("contents", "problem data %d changed", k);
      }
    rt::heap_check("after container operation");
    rt::op_end();
  }
  for (int k = 0; k < NM; k++) drop_map(k);
  for (int k = 0; k < NS; k++)
    if (S[k].s) {
      seq_delete(S[k].s);
      S[k].s = nullptr;
    }
  for (int k = 0; k < ND; k++)
    if (D[k].d) sut_delete_data(D[k].d);
  for (int t = 5001; t <= 5000 + next; t++)
    if (rt::heap_live(t, nullptr)) violate("leak", "container memory left at the end");
}
