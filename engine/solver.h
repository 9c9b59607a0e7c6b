// symx: SMT back end (Z3) with independent-slice canonical query cache
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <string>
#include <cstdio>

namespace symx {

struct Model { std::vector<std::pair<uint32_t, uint8_t>> kv; };
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct Solver {
  ExprDB &db;
  Z3_context ctx; Z3_solver slv; Z3_sort bvsort[65]; Z3_sort fpD; Z3_ast rne, rtz;
  u64t nQueries = 0, nZ3 = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nCacheHit = 0; double z3Time = 0, maxZ3 = 0;
  unsigned timeoutMs = 20000;
  std::string dumpDir; int dumpMax = 0, dumped = 0;
  struct CEnt { Res r; Model m; };
  std::unordered_map<std::string, CEnt> exact, canon;
  std::vector<Z3_ast> varAst;

  Solver(ExprDB &d) : db(d) {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    for (int i = 1; i <= 64; i++) bvsort[i] = Z3_mk_bv_sort(ctx, i);
    fpD = Z3_mk_fpa_sort_double(ctx);
    rne = Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx, rne); rtz = Z3_mk_fpa_rtz(ctx); Z3_inc_ref(ctx, rtz);
    slv = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, slv, p); Z3_params_dec_ref(ctx, p);
  }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  Z3_ast varOf(uint32_t id) {
    // canonical queries number their variables 0..n-1
    while (varAst.size() <= id) {
      std::string n = "b" + std::to_string(varAst.size());
      varAst.push_back(keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bvsort[8])));
    }
    return varAst[id];
  }
  Z3_ast bit2bool(Z3_ast x) { return Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, bvsort[1])); }
  Z3_ast bool2bit(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bvsort[1]), Z3_mk_unsigned_int64(ctx, 0, bvsort[1])); }
  Z3_ast toFp(Z3_ast bits) { return Z3_mk_fpa_to_fp_bv(ctx, bits, fpD); }
  Z3_ast toBv(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); }
  // 1-bit expressions translate to Bool through boolOf, to BV1 through bv
  Z3_ast boolOf(E e) {
    if (e->z3 && (((uintptr_t)e->z3) & 1)) return (Z3_ast)((uintptr_t)e->z3 & ~(uintptr_t)1);
    Z3_ast r;
    switch (e->kind) {
    case K_CONST: r = e->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K_NOT: r = Z3_mk_not(ctx, boolOf(e->a)); break;
    case K_AND: { Z3_ast x[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case K_OR: { Z3_ast x[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case K_XOR: r = Z3_mk_xor(ctx, boolOf(e->a), boolOf(e->b)); break;
    case K_ITE: r = Z3_mk_ite(ctx, boolOf(e->a), boolOf(e->b), boolOf(e->c)); break;
    case K_EQ: {
      if ((e->flags & F_XOR) && !e->a->z3) {
        const Lin *la = db.lin(e->a), *lb = db.lin(e->b);
        if (la && lb) {
          std::vector<Z3_ast> cs;
          for (int i = 0; i < e->a->w; i++) {
            auto row = ExprDB::xorRows(la->rows[i], lb->rows[i]); bool k = ((la->konst ^ lb->konst) >> i) & 1;
            cs.push_back(xorRow(row, k));
          }
          r = cs.size() == 1 ? cs[0] : Z3_mk_and(ctx, cs.size(), cs.data());
          break;
        }
      }
      r = Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
    }
    case K_ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case K_FOEQ: r = Z3_mk_fpa_eq(ctx, toFp(bv(e->a)), toFp(bv(e->b))); break;
    case K_FOLT: r = Z3_mk_fpa_lt(ctx, toFp(bv(e->a)), toFp(bv(e->b))); break;
    case K_FOLE: r = Z3_mk_fpa_leq(ctx, toFp(bv(e->a)), toFp(bv(e->b))); break;
    case K_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, toFp(bv(e->a))), Z3_mk_fpa_is_nan(ctx, toFp(bv(e->b)))}; r = Z3_mk_or(ctx, 2, x); break; }
    default: r = bit2bool(bvRaw(e)); break;
    }
    keep(r);
    e->z3 = (void *)((uintptr_t)r | 1);
    return r;
  }
  // all bits of the row xor to k  (as a Bool)
  Z3_ast xorRow(const std::vector<uint32_t> &row, bool k) {
    if (row.empty()) return k ? Z3_mk_false(ctx) : Z3_mk_true(ctx);
    Z3_ast x = nullptr;
    for (auto b : row) { Z3_ast t = Z3_mk_extract(ctx, b % 8, b % 8, varOf(b / 8)); x = x ? Z3_mk_bvxor(ctx, x, t) : t; }
    return Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, k ? 1 : 0, bvsort[1]));
  }
  Z3_ast bv(E e) {
    if (e->w == 1 && e->kind != K_EXTRACT && e->kind != K_TABLE) return bool2bit(boolOf(e));
    if (e->w == 1) return bvRaw(e);
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = keep(bvRaw(e)); e->z3 = (void *)r; return r;
  }
  Z3_ast bvRaw(E e) {
    switch (e->kind) {
    case K_CONST: return Z3_mk_unsigned_int64(ctx, e->k, bvsort[e->w]);
    case K_VAR: return varOf((uint32_t)e->k);
    case K_ADD: return Z3_mk_bvadd(ctx, bv(e->a), bv(e->b));
    case K_SUB: return Z3_mk_bvsub(ctx, bv(e->a), bv(e->b));
    case K_MUL: return Z3_mk_bvmul(ctx, bv(e->a), bv(e->b));
    case K_UDIV: return Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b));
    case K_SDIV: return Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b));
    case K_UREM: return Z3_mk_bvurem(ctx, bv(e->a), bv(e->b));
    case K_SREM: return Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b));
    case K_AND: return Z3_mk_bvand(ctx, bv(e->a), bv(e->b));
    case K_OR: return Z3_mk_bvor(ctx, bv(e->a), bv(e->b));
    case K_XOR: return Z3_mk_bvxor(ctx, bv(e->a), bv(e->b));
    case K_SHL: return Z3_mk_bvshl(ctx, bv(e->a), bv(e->b));
    case K_LSHR: return Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b));
    case K_ASHR: return Z3_mk_bvashr(ctx, bv(e->a), bv(e->b));
    case K_ZEXT: return Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a));
    case K_SEXT: return Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a));
    case K_EXTRACT: return Z3_mk_extract(ctx, e->k + e->w - 1, e->k, bv(e->a));
    case K_CONCAT: return Z3_mk_concat(ctx, bv(e->a), bv(e->b));
    case K_ITE: return Z3_mk_ite(ctx, boolOf(e->a), bv(e->b), bv(e->c));
    case K_TABLE: {
      const Table &T = db.tables[e->k];
      if (T.linear) if (const Lin *L = db.lin(e)) {
        Z3_ast r = nullptr;
        for (int i = e->w - 1; i >= 0; i--) {
          Z3_ast b = bool2bit(xorRow(L->rows[i], !((L->konst >> i) & 1)));
          r = r ? Z3_mk_concat(ctx, r, b) : b;
        }
        return r;
      }
      Z3_ast r = Z3_mk_unsigned_int64(ctx, T.v.back(), bvsort[e->w]); Z3_ast ix = bv(e->a);
      for (int i = (int)T.v.size() - 2; i >= 0; i--) {
        if (T.v[i] == T.v[i + 1] && false) continue;
        r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, ix, Z3_mk_unsigned_int64(ctx, i, bvsort[e->a->w])), Z3_mk_unsigned_int64(ctx, T.v[i], bvsort[e->w]), r);
      }
      return r;
    }
    case K_SI2FP: return toBv(Z3_mk_fpa_to_fp_signed(ctx, rne, bv(e->a), fpD));
    case K_UI2FP: return toBv(Z3_mk_fpa_to_fp_unsigned(ctx, rne, bv(e->a), fpD));
    case K_FADD: return toBv(Z3_mk_fpa_add(ctx, rne, toFp(bv(e->a)), toFp(bv(e->b))));
    case K_FSUB: return toBv(Z3_mk_fpa_sub(ctx, rne, toFp(bv(e->a)), toFp(bv(e->b))));
    case K_FMUL: return toBv(Z3_mk_fpa_mul(ctx, rne, toFp(bv(e->a)), toFp(bv(e->b))));
    case K_FDIV: return toBv(Z3_mk_fpa_div(ctx, rne, toFp(bv(e->a)), toFp(bv(e->b))));
    case K_FNEG: return Z3_mk_bvxor(ctx, bv(e->a), Z3_mk_unsigned_int64(ctx, 1ull << 63, bvsort[64]));
    case K_FP2SI: return Z3_mk_fpa_to_sbv(ctx, rtz, toFp(bv(e->a)), e->w);
    case K_FP2UI: return Z3_mk_fpa_to_ubv(ctx, rtz, toFp(bv(e->a)), e->w);
    default: fprintf(stderr, "symx: cannot translate kind %d\n", e->kind); abort();
    }
  }

  static std::string keyOf(std::vector<E> &cs) {
    std::sort(cs.begin(), cs.end(), [](E x, E y) { return x->id < y->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::string k; k.reserve(cs.size() * 4);
    for (E c : cs) k.append((const char *)&c->id, 4);
    return k;
  }
  // satisfiability of the conjunction; the model names the variables of cs
  Res solve(std::vector<E> cs, Model &out) {
    nQueries++;
    for (auto it = cs.begin(); it != cs.end();) { if (ExprDB::isC(*it)) { if (!(*it)->k) { nUnsat++; return UNSAT; } it = cs.erase(it); } else ++it; }
    if (cs.empty()) { out.kv.clear(); return SAT; }
    std::string k1 = keyOf(cs);
    auto it = exact.find(k1);
    if (it != exact.end()) { nCacheHit++; out = it->second.m; return it->second.r; }
    const VarSet *vs = db.emptyVs;
    for (E c : cs) vs = db.uni(vs, c->vars);
    // single-variable conditions are folded into one domain per byte, the others renamed canonically
    std::vector<E> rc, multi; std::string k2; size_t nv = vs->v.size(); std::vector<Dom> dom;
    if (nv == 1) { for (E c : cs) rc.push_back(db.canonUnary(c)); k2 = keyOf(rc); k2.insert(k2.begin(), 'u'); }
    else {
      std::unordered_map<uint32_t, uint32_t> m; for (uint32_t i = 0; i < nv; i++) m[vs->v[i]] = i;
      Dom full; full.set(); dom.assign(nv, full); std::unordered_map<E, E> memo;
      for (E c : cs) { if (c->vars->v.size() == 1) dom[m[c->vars->v[0]]] &= db.domOf(c); else multi.push_back(db.rename(c, m, memo)); rc.push_back(nullptr); }
      size_t j = 0;
      k2 = keyOf(multi); k2.insert(k2.begin(), 'm');
      for (auto &d : dom) { u64t id = domId(d); k2.append((const char *)&id, 4); }
      (void)j;
    }
    auto jt = canon.find(k2);
    if (jt == canon.end()) {
      CEnt ent; bool done = false;
      if (nv > 1 && search(multi, dom, vs, ent.m)) { ent.r = SAT; nWitness++; nSat++; done = true; }
      if (!done) {
        if (nv > 1) {
          rc = multi; std::unordered_map<uint32_t, uint32_t> m; for (uint32_t i = 0; i < nv; i++) m[vs->v[i]] = i; std::unordered_map<E, E> memo;
          for (E c : cs) if (c->vars->v.size() == 1) rc.push_back(db.rename(c, m, memo));
        }
        ent.r = z3solve(rc, nv, ent.m);
      }
      jt = canon.emplace(k2, std::move(ent)).first;
    } else nCacheHit++;
    CEnt e2; e2.r = jt->second.r;
    for (auto &p : jt->second.m.kv) e2.m.kv.push_back({vs->v[p.first], p.second});
    out = e2.m; Res r = e2.r;
    exact.emplace(k1, std::move(e2));
    return r;
  }
  struct DomHash { size_t operator()(const Dom &d) const { return std::hash<Dom>()(d); } };
  std::unordered_map<Dom, u64t, DomHash> domIds; u64t nWitness = 0;
  u64t domId(const Dom &d) { return domIds.emplace(d, domIds.size()).first->second; }
  // cheap search for a satisfying assignment near the current model; a hit is a checked witness, a miss decides nothing
  bool search(const std::vector<E> &cs, const std::vector<Dom> &dom, const VarSet *vs, Model &out) {
    size_t nv = dom.size(); std::vector<uint8_t> v(nv); auto saved = db.model;
    for (size_t i = 0; i < nv; i++) {
      uint32_t id = vs->v[i]; uint8_t x = saved && id < saved->size() ? (*saved)[id] : 0;
      if (!dom[i].test(x)) { size_t k = dom[i]._Find_first(); if (k >= 256) return false; x = (uint8_t)k; }
      v[i] = x;
    }
    long budget = 3000;
    auto bad = [&](E skipOk) { (void)skipOk; db.setModel(&v); int n = 0; for (E c : cs) { budget--; if (!db.eval(c)) n++; } return n; };
    int cur = bad(nullptr); bool ok = cur == 0;
    for (int round = 0; round < 3 && !ok && budget > 0; round++) {
      // variables of a violated constraint
      E viol = nullptr; db.setModel(&v); for (E c : cs) if (!db.eval(c)) { viol = c; break; }
      if (!viol || viol->vars->v.size() > 10) break;
      int best = cur, bi = -1; uint8_t bx = 0;
      for (uint32_t i : viol->vars->v) {
        uint8_t old = v[i];
        for (int x = 0; x < 256 && budget > 0; x++) if (dom[i].test(x) && x != old) {
          v[i] = (uint8_t)x; int n = bad(nullptr); if (n < best) { best = n; bi = (int)i; bx = (uint8_t)x; if (!n) break; }
        }
        v[i] = old; if (!best) break;
      }
      if (bi < 0) break;
      v[bi] = bx; cur = best; ok = cur == 0;
    }
    db.setModel(saved);
    if (ok) for (size_t i = 0; i < nv; i++) out.kv.push_back({(uint32_t)i, v[i]});
    return ok;
  }
  Res z3solve(const std::vector<E> &cs, size_t nv, Model &out) {
    auto t0 = std::chrono::steady_clock::now();
    nZ3++;
    Z3_solver_reset(ctx, slv);
    for (E c : cs) Z3_solver_assert(ctx, slv, boolOf(c));
    Z3_lbool r = Z3_solver_check(ctx, slv);
    double dt0 = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (!dumpDir.empty() && dumped < dumpMax && r != Z3_L_UNDEF) {
      std::string f = dumpDir + "/q" + std::to_string(dumped++) + (r == Z3_L_TRUE ? "_sat" : "_unsat") + ".smt2";
      if (FILE *o = fopen(f.c_str(), "w")) { fprintf(o, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(ctx, slv)); fclose(o); }
    }
    Res res = UNKNOWN;
    if (r == Z3_L_TRUE) {
      res = SAT; nSat++;
      Z3_model m = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, m);
      std::vector<uint8_t> vals(nv);
      for (size_t i = 0; i < nv; i++) {
        Z3_ast v; 
        if (Z3_model_eval(ctx, m, varOf(i), true, &v)) { uint64_t x = 0; Z3_get_numeral_uint64(ctx, v, &x); vals[i] = (uint8_t)x; }
        out.kv.push_back({(uint32_t)i, vals[i]});
      }
      Z3_model_dec_ref(ctx, m);
      // the model is checked against our own semantics of every constraint
      auto saved = db.model; db.setModel(&vals);
      for (E c : cs) if (!db.eval(c)) { fprintf(stderr, "symx: solver model does not satisfy %s\n", db.str(c).c_str()); abort(); }
      db.setModel(saved);
    } else if (r == Z3_L_FALSE) { res = UNSAT; nUnsat++; }
    else { nUnknown++; fprintf(stderr, "symx: solver unknown after %.1fs: %s\n", dt0, Z3_solver_get_reason_unknown(ctx, slv)); }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    z3Time += dt; if (dt > maxZ3) maxZ3 = dt;
    return res;
  }
};
} // namespace symx
