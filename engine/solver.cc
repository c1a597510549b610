#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <unistd.h>
#include <fstream>
#include <sstream>

SolverStats gSS;
SolverCfg gCfg;
double gDeadline = 0;
double nowSec() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

namespace {
Z3_context ctx;
std::string lastErr;
void onErr(Z3_context c, Z3_error_code e) { lastErr = Z3_get_error_msg(c, e); }

struct Tr {
  std::unordered_map<Ex, Z3_ast> bv, bo, fp;
  std::map<uint32_t, Z3_ast> vars;
  std::unordered_map<Ex, Z3_ast> side;  // FP expr -> definition of its bit pattern
  Z3_ast rne;
  Z3_ast keep(Z3_ast a) {
    if (!a) { fprintf(stderr, "z3 error: %s\n", lastErr.c_str()); abort(); }
    Z3_inc_ref(ctx, a);
    return a;
  }
  Z3_sort fs(unsigned w) {
    return w == 32 ? Z3_mk_fpa_sort_single(ctx) : w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_half(ctx);
  }
  Z3_ast toBV(Ex e);
  Z3_ast toBool(Ex e);
  Z3_ast toFP(Ex e);
  Z3_ast num(const APInt &v) {
    llvm::SmallString<64> s;
    v.toStringUnsigned(s, 10);
    return keep(Z3_mk_numeral(ctx, s.c_str(), Z3_mk_bv_sort(ctx, v.getBitWidth())));
  }
} tr;

Z3_ast Tr::toBool(Ex e) {
  auto it = bo.find(e);
  if (it != bo.end()) return it->second;
  Z3_ast r;
  auto b2 = [&](Z3_ast x, Z3_ast y) { Z3_ast a[2] = {x, y}; return std::vector<Z3_ast>(a, a + 2); };
  switch (e->op) {
  case Op::Const: r = e->cv.isZero() ? Z3_mk_false(ctx) : Z3_mk_true(ctx); break;
  case Op::Not: r = Z3_mk_not(ctx, toBool(e->k[0])); break;
  case Op::And: { auto v = b2(toBool(e->k[0]), toBool(e->k[1])); r = Z3_mk_and(ctx, 2, v.data()); break; }
  case Op::Or: { auto v = b2(toBool(e->k[0]), toBool(e->k[1])); r = Z3_mk_or(ctx, 2, v.data()); break; }
  case Op::Xor: r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1])); break;
  case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
  case Op::Eq:
    if (e->k[0]->w == 1) r = Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1]));
    else r = Z3_mk_eq(ctx, toBV(e->k[0]), toBV(e->k[1]));
    break;
  case Op::Ult: r = Z3_mk_bvult(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
  case Op::Ule: r = Z3_mk_bvule(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
  case Op::Slt: r = Z3_mk_bvslt(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
  case Op::Sle: r = Z3_mk_bvsle(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
  case Op::FLt: r = Z3_mk_fpa_lt(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
  case Op::FLe: r = Z3_mk_fpa_leq(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
  case Op::FEq: r = Z3_mk_fpa_eq(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
  case Op::FIsNaN: r = Z3_mk_fpa_is_nan(ctx, toFP(e->k[0])); break;
  default: r = Z3_mk_eq(ctx, toBV(e), num(APInt(1, 1))); break;
  }
  return bo[e] = keep(r);
}

Z3_ast Tr::toBV(Ex e) {
  auto it = bv.find(e);
  if (it != bv.end()) return it->second;
  Z3_ast r;
  auto A = [&](int i) { return toBV(e->k[i]); };
  switch (e->op) {
  case Op::Const: r = num(e->cv); break;
  case Op::Var: {
    r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, gVars[e->aux].name.c_str()), Z3_mk_bv_sort(ctx, e->w));
    vars[e->aux] = keep(r);
    break;
  }
  case Op::Add: r = Z3_mk_bvadd(ctx, A(0), A(1)); break;
  case Op::Sub: r = Z3_mk_bvsub(ctx, A(0), A(1)); break;
  case Op::Mul: r = Z3_mk_bvmul(ctx, A(0), A(1)); break;
  case Op::UDiv: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
  case Op::SDiv: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
  case Op::URem: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
  case Op::SRem: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
  case Op::Shl: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
  case Op::LShr: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
  case Op::AShr: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
  case Op::Concat: r = Z3_mk_concat(ctx, A(0), A(1)); break;
  case Op::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, A(0)); break;
  case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, A(0)); break;
  case Op::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, A(0)); break;
  case Op::Ite:
    if (e->w == 1) goto viaBool;
    r = Z3_mk_ite(ctx, toBool(e->k[0]), A(1), A(2));
    break;
  case Op::And: if (e->w == 1) goto viaBool; r = Z3_mk_bvand(ctx, A(0), A(1)); break;
  case Op::Or: if (e->w == 1) goto viaBool; r = Z3_mk_bvor(ctx, A(0), A(1)); break;
  case Op::Xor: if (e->w == 1) goto viaBool; r = Z3_mk_bvxor(ctx, A(0), A(1)); break;
  case Op::Not: case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
  case Op::FLt: case Op::FLe: case Op::FEq: case Op::FIsNaN:
  viaBool:
    r = Z3_mk_ite(ctx, toBool(e), num(APInt(1, 1)), num(APInt(1, 0)));
    break;
  case Op::FToSI: { Z3_ast x = toFP(e->k[0]), z = keep(Z3_mk_fpa_rtz(ctx)); r = Z3_mk_fpa_to_sbv(ctx, z, x, e->w); break; }
  case Op::FToUI: { Z3_ast x = toFP(e->k[0]), z = keep(Z3_mk_fpa_rtz(ctx)); r = Z3_mk_fpa_to_ubv(ctx, z, x, e->w); break; }
  default: {
    // FP-valued: a fresh bit pattern b with  (isNaN f ? b = canonical NaN : to_fp(b) = f)
    char nm[32];
    if (e->op == Op::Ref) {   // uninterpreted for the SMT solver
      snprintf(nm, sizeof nm, "ref!%u", e->id);
      r = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, e->w)));
      break;
    }
    Z3_ast f = toFP(e);
    snprintf(nm, sizeof nm, "fpb!%u", e->id);
    r = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, e->w)));
    Z3_ast nanb = num(e->w == 32 ? APInt(32, 0x7fc00000) : APInt(64, 0x7ff8000000000000ull));
    Z3_ast back = keep(Z3_mk_fpa_to_fp_bv(ctx, r, fs(e->w)));
    Z3_ast c1 = keep(Z3_mk_fpa_is_nan(ctx, f)), c2 = keep(Z3_mk_eq(ctx, r, nanb)), c3 = keep(Z3_mk_eq(ctx, back, f));
    Z3_ast def = keep(Z3_mk_ite(ctx, c1, c2, c3));
    side[e] = def;
    break;
  }
  }
  return bv[e] = keep(r);
}

Z3_ast Tr::toFP(Ex e) {
  auto it = fp.find(e);
  if (it != fp.end()) return it->second;
  Z3_ast r;
  auto F = [&](int i) { return toFP(e->k[i]); };
  switch (e->op) {
  case Op::FAdd: r = Z3_mk_fpa_add(ctx, rne, F(0), F(1)); break;
  case Op::FSub: r = Z3_mk_fpa_sub(ctx, rne, F(0), F(1)); break;
  case Op::FMul: r = Z3_mk_fpa_mul(ctx, rne, F(0), F(1)); break;
  case Op::FDiv: r = Z3_mk_fpa_div(ctx, rne, F(0), F(1)); break;
  case Op::FSqrt: r = Z3_mk_fpa_sqrt(ctx, rne, F(0)); break;
  case Op::FFma: r = Z3_mk_fpa_fma(ctx, rne, F(0), F(1), F(2)); break;
  case Op::FRound: {
    Z3_ast x = F(0);
    Z3_ast m = keep(e->aux == 0 ? Z3_mk_fpa_rne(ctx) : e->aux == 1 ? Z3_mk_fpa_rna(ctx) : e->aux == 2 ? Z3_mk_fpa_rtp(ctx) : e->aux == 3 ? Z3_mk_fpa_rtn(ctx) : Z3_mk_fpa_rtz(ctx));
    r = Z3_mk_fpa_round_to_integral(ctx, m, x);
    break;
  }
  case Op::SIToF: r = Z3_mk_fpa_to_fp_signed(ctx, rne, toBV(e->k[0]), fs(e->w)); break;
  case Op::UIToF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, toBV(e->k[0]), fs(e->w)); break;
  case Op::FToF: r = Z3_mk_fpa_to_fp_float(ctx, rne, F(0), fs(e->w)); break;
  case Op::Ite: if (e->hasFP) { r = Z3_mk_ite(ctx, toBool(e->k[0]), F(1), F(2)); break; }  // fallthrough
  default:
    // sign manipulation of an FP value: concat(not sign / 0 / 1, extract(f))
    if (e->op == Op::Concat && e->k[0]->w == 1 && e->k[1]->op == Op::Extract && e->k[1]->aux == 0 &&
        e->k[1]->k[0]->w == e->w && e->k[1]->k[0]->op >= Op::FAdd && e->k[0]->op == Op::Not &&
        e->k[0]->k[0] == mkExtract(e->k[1]->k[0], e->w - 1, 1)) {
      r = Z3_mk_fpa_neg(ctx, toFP(e->k[1]->k[0]));
      break;
    }
    if (e->op == Op::ZExt && e->k[0]->op == Op::Extract && e->k[0]->aux == 0 && e->k[0]->w + 1 == e->w &&
        e->k[0]->k[0]->w == e->w && e->k[0]->k[0]->op >= Op::FAdd) {
      r = Z3_mk_fpa_abs(ctx, toFP(e->k[0]->k[0]));
      break;
    }
    r = Z3_mk_fpa_to_fp_bv(ctx, toBV(e), fs(e->w));
  }
  return fp[e] = keep(r);
}

void sideOf(Ex e, std::set<Ex> &seen, std::vector<Z3_ast> &out) {
  if (!e->hasFP || !seen.insert(e).second) return;
  for (int i = 0; i < e->nk; i++) sideOf(e->k[i], seen, out);
  auto it = tr.side.find(e);
  if (it != tr.side.end()) out.push_back(it->second);
}

void init() {
  if (ctx) return;
  if (getenv("SYMX_Z3")) {   // debugging: k=v,k=v
    std::stringstream ss(getenv("SYMX_Z3")); std::string t;
    while (std::getline(ss, t, ',')) { size_t e = t.find('='); Z3_global_param_set(t.substr(0, e).c_str(), t.substr(e + 1).c_str()); }
  }
  Z3_config c = Z3_mk_config();
  ctx = Z3_mk_context_rc(c);
  Z3_set_error_handler(ctx, onErr);
  tr.rne = Z3_mk_fpa_rne(ctx);
  Z3_inc_ref(ctx, tr.rne);
}

std::map<std::vector<uint32_t>, std::pair<Res, std::shared_ptr<Model>>> cache;
std::vector<std::shared_ptr<Model>> recent;
size_t recentPos;
int dumpNo;

Res external(const std::vector<Z3_ast> &as, const std::set<uint32_t> &vs, Model *m, bool hasFP, double budget) {
  gSS.external++;
  char base[512];
  snprintf(base, sizeof base, "%s/q%d_%d", gCfg.workDir.c_str(), (int)getpid(), dumpNo++);
  std::string f = std::string(base) + ".smt2";
  {
    std::vector<Z3_ast> rest(as.begin(), as.end() - 1);
    std::string s = Z3_benchmark_to_smtlib_string(ctx, "", hasFP ? "QF_BVFP" : "QF_BV", "unknown", "", rest.size(), rest.data(), as.back());
    std::ofstream o(f);
    // vars that do not occur are simply not declared
    size_t p = s.rfind("(check-sat)");
    o << s.substr(0, p) << "(check-sat)\n";
  }
  std::ostringstream cmd;
  cmd << gCfg.portfolio << " " << f << " " << (int)budget << " " << (hasFP ? "fp" : "bv");
  FILE *p = popen(cmd.str().c_str(), "r");
  if (!p) return Res::Unknown;
  std::string out;
  char buf[4096];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, p)) > 0) out.append(buf, n);
  pclose(p);
  if (!getenv("SYMX_KEEP_SMT")) unlink(f.c_str());
  std::istringstream is(out);
  std::string verdict, who;
  is >> verdict >> who;
  if (verdict == "unsat") { gSS.externalWinners.push_back(who); return Res::Unsat; }
  if (verdict != "sat") return Res::Unknown;
  gSS.externalWinners.push_back(who);
  std::map<std::string, std::string> vals;
  std::string nm, hex;
  while (is >> nm >> hex) vals[nm] = hex;
  for (auto v : vs) {
    auto it = vals.find(gVars[v].name);
    APInt a(gVars[v].w, 0);
    if (it != vals.end()) a = APInt(std::max<unsigned>(gVars[v].w, it->second.size() * 4), it->second, 16).trunc(gVars[v].w);
    m->val.insert_or_assign(v, a);
  }
  return Res::Sat;
}
}  // namespace

// Order reasoning: a cycle through a strict edge, or a disequality inside a cycle of weak edges, refutes
// the set.  Only used to answer Unsat, so it never has to be complete.
static bool orderRefutes(const std::vector<Ex> &cs) {
  for (int sg = 0; sg < 2; sg++) {
    std::map<Ex, int> id;
    std::vector<Ex> nodes;
    auto node = [&](Ex e) { auto r = id.emplace(e, (int)nodes.size()); if (r.second) nodes.push_back(e); return r.first->second; };
    struct Ed { int a, b, k; };   // a <= b (1), a < b (2), a != b (3)
    std::vector<Ed> ed;
    Op lt = sg ? Op::Slt : Op::Ult, le = sg ? Op::Sle : Op::Ule;
    bool any = false;
    for (Ex e : cs) {
      bool neg = e->op == Op::Not;
      if (neg) e = e->k[0];
      if (e->op == lt || e->op == le) {
        bool strict = (e->op == lt) != neg;
        int a = node(e->k[neg]), b = node(e->k[!neg]);
        ed.push_back({a, b, strict ? 2 : 1});
        any = true;
      } else if (e->op == Op::Eq && e->k[0]->w > 1 && e->k[0]->w <= 64) {
        int a = node(e->k[0]), b = node(e->k[1]);
        if (neg) ed.push_back({a, b, 3});
        else { ed.push_back({a, b, 1}); ed.push_back({b, a, 1}); }
      }
    }
    int n = nodes.size();
    if ((!any && sg) || n < 2 || n > 40) continue;
    std::vector<unsigned char> d(n * n, 0);
    for (int i = 0; i < n; i++) d[i * n + i] = 1;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && nodes[i]->isC() && nodes[j]->isC() && nodes[i]->w == nodes[j]->w)
      if (sg ? nodes[i]->cv.slt(nodes[j]->cv) : nodes[i]->cv.ult(nodes[j]->cv)) d[i * n + j] = 2;
    for (auto &x : ed) if (x.k < 3) d[x.a * n + x.b] = std::max<unsigned char>(d[x.a * n + x.b], x.k);
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (d[i * n + k]) for (int j = 0; j < n; j++) if (d[k * n + j])
      d[i * n + j] = std::max<unsigned char>(d[i * n + j], std::max(d[i * n + k], d[k * n + j]));
    for (int i = 0; i < n; i++) if (d[i * n + i] == 2) return true;
    for (auto &x : ed) if (x.k == 3 && (x.a == x.b || (d[x.a * n + x.b] && d[x.b * n + x.a]))) return true;
  }
  return false;
}

static std::string show(Ex e, int depth) {
  static const char *nm[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "not", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext"};
  if (e->isC()) { llvm::SmallString<64> t; e->cv.toString(t, 16, false, true); return t.c_str(); }
  if (e->op == Op::Var) return gVars[e->aux].name;
  std::string r = "#" + std::to_string(e->id);
  if (depth == 0) return r;
  r += "(";
  r += (size_t)e->op < sizeof nm / sizeof *nm ? nm[(size_t)e->op] : "f" + std::to_string((int)e->op);
  r += ":" + std::to_string(e->w);
  if (e->op == Op::Extract) r += "@" + std::to_string(e->aux);
  for (int i = 0; i < e->nk; i++) r += " " + show(e->k[i], depth - 1);
  return r + ")";
}

// ---- sweeping: merge subterms that are equal for every value of the variables (bottom-up, each merge proved) ----
static Ex rebuild(Ex e, Ex *k) {
  switch (e->op) {
  case Op::Const: case Op::Var: return e;
  case Op::Not: return mkNot(k[0]);
  case Op::Ite: return mkIte(k[0], k[1], k[2]);
  case Op::Concat: return mkConcat(k[0], k[1]);
  case Op::ZExt: return mkZExt(k[0], e->w);
  case Op::SExt: return mkSExt(k[0], e->w);
  case Op::Extract: return mkExtract(k[0], e->aux, e->w);
  default:
    if (e->op >= Op::FAdd) return mkF(e->op, k[0], e->nk > 1 ? k[1] : nullptr, e->nk > 2 ? k[2] : nullptr, e->w, e->aux);
    return mkBin(e->op, k[0], k[1]);
  }
}
static void coneOf(Ex e, std::set<Ex> &out) {
  std::vector<Ex> st{e};
  while (!st.empty()) {
    Ex x = st.back(); st.pop_back();
    if (!out.insert(x).second) continue;
    for (int i = 0; i < x->nk; i++) st.push_back(x->k[i]);
  }
}
static Ex cutAt(Ex e, const std::set<Ex> &shared, std::unordered_map<Ex, Ex> &memo, int &n) {
  if (e->isC()) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Ex r;
  if (shared.count(e)) r = e->op == Op::Var ? e : mkVar("cut!" + std::to_string(n++) + "_" + std::to_string(e->w), e->w);
  else {
    Ex k[3] = {};
    for (int i = 0; i < e->nk; i++) k[i] = cutAt(e->k[i], shared, memo, n);
    r = rebuild(e, k);
  }
  return memo[e] = r;
}
static Res plainCheck(Ex goal, unsigned ms) {   // one query, fresh solver, no model
  if (goal->isC()) return goal->cv.isZero() ? Res::Unsat : Res::Sat;
  std::vector<Z3_ast> as{tr.toBool(goal)};
  std::set<Ex> seen;
  sideOf(goal, seen, as);
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, goal->hasFP ? "QF_FPBV" : "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, s, p);
  for (auto a : as) Z3_solver_assert(ctx, s, a);
  Z3_lbool r = Z3_solver_check(ctx, s);
  Z3_params_dec_ref(ctx, p);
  Z3_solver_dec_ref(ctx, s);
  gSS.queries++;
  return r == Z3_L_FALSE ? Res::Unsat : r == Z3_L_TRUE ? Res::Sat : Res::Unknown;
}
static bool provedEqual(Ex a, Ex b) {
  static std::map<std::pair<uint32_t, uint32_t>, bool> memo;
  auto key = std::make_pair(a->id, b->id);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  std::set<Ex> ca, cb, sh;
  coneOf(a, ca); coneOf(b, cb);
  for (Ex e : ca) if (cb.count(e) && e->w > 1) sh.insert(e);
  bool r = false;
  if (!sh.count(a) && !sh.count(b)) {
    // first with every shared subterm abstracted, then with the topmost ones opened, a few levels down
    for (int level = 0; level < 5 && !r; level++) {
      std::unordered_map<Ex, Ex> m;
      int n = 0;
      Ex x = cutAt(a, sh, m, n), y = cutAt(b, sh, m, n);
      Res q = plainCheck(mkNot(mkBin(Op::Eq, x, y)), 1000);
      if (q == Res::Unsat) { r = true; break; }
      if (q == Res::Unknown) break;
      bool opened = false;
      for (auto &kv : m) if (sh.count(kv.first) && kv.first->op != Op::Var && sh.erase(kv.first)) opened = true;
      if (!opened) break;
    }
  }
  if (!r && ca.size() + cb.size() < 400 && !a->hasFP) r = plainCheck(mkNot(mkBin(Op::Eq, a, b)), 300) == Res::Unsat;
  return memo[key] = r;
}
static bool sweep(std::vector<Ex> &cs, double until) {
  std::set<Ex> all;
  for (Ex e : cs) coneOf(e, all);
  if (all.size() > 30000 || all.size() < 8) return false;
  std::vector<Ex> nodes(all.begin(), all.end());
  std::sort(nodes.begin(), nodes.end(), [](Ex a, Ex b) { return a->id < b->id; });
  std::vector<Model> sims(20);
  uint64_t x = 88172645463325252ull;
  auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
  for (size_t i = 0; i < sims.size(); i++)
    for (Ex e : nodes) if (e->op == Op::Var) {
      APInt v(e->w, 0);
      if (i < 3) v = APInt(e->w, rnd() % 4);
      else { for (unsigned b = 0; b < e->w; b += 64) v |= APInt(std::max<unsigned>(64, e->w), rnd()).zextOrTrunc(e->w).shl(b); if (i % 4 == 0) v = v.lshr(rnd() % e->w); }
      sims[i].val.insert_or_assign(e->aux, v);
    }
  for (auto &r : recent) sims.push_back(*r);
  std::unordered_map<Ex, Ex> now;
  std::map<std::pair<uint64_t, unsigned>, std::vector<Ex>> reps;
  int merges = 0, tries = 0;
  for (Ex e : nodes) {
    Ex k[3] = {};
    for (int i = 0; i < e->nk; i++) k[i] = now[e->k[i]];
    Ex n = rebuild(e, k);
    if (e->w > 1 && !n->isC()) {
      uint64_t h = e->w;
      for (auto &m : sims) h = (h ^ llvm::hash_value(m.eval(e))) * 1099511628211ull, h ^= h >> 29;
      auto &v = reps[{h, e->w}];
      bool done = false;
      for (Ex r : v) if (r == n) done = true;
      for (size_t i = 0; i < v.size() && !done && i < 3; i++) {
        if (nowSec() > until) return false;
        tries++;
        double t1 = nowSec();
        bool eq = provedEqual(v[i], n);
        if (getenv("SYMX_SWEEP") && nowSec() - t1 > 0.3) fprintf(stderr, "sweep: pair %d %.2f s\n  %.1200s\n  %.1200s\n", eq, nowSec() - t1, show(v[i], 9).c_str(), show(n, 9).c_str());
        if (eq) { n = v[i]; merges++; done = true; }
      }
      if (!done) v.push_back(n);
    }
    now[e] = n;
  }
  if (getenv("SYMX_SWEEP")) fprintf(stderr, "sweep: %zu nodes, %d candidate pairs, %d merged\n", nodes.size(), tries, merges);
  if (!merges) return false;
  gSS.merges += merges;
  for (Ex &e : cs) e = now[e];
  return true;
}

Res solve(const std::vector<Ex> &cs0, Model *m) {
  init();
  std::vector<Ex> cs;
  for (Ex e : cs0) {
    if (e->isC()) { if (e->cv.isZero()) return Res::Unsat; continue; }
    cs.push_back(e);
  }
  if (cs.empty()) return Res::Sat;
  std::sort(cs.begin(), cs.end(), [](Ex a, Ex b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<uint32_t> key;
  for (Ex e : cs) key.push_back(e->id);
  auto it = cache.find(key);
  if (it != cache.end()) {
    gSS.cacheHits++;
    if (it->second.first == Res::Sat && m) for (auto &kv : it->second.second->val) m->val.insert_or_assign(kv.first, kv.second);
    return it->second.first;
  }
  std::set<uint32_t> vs;
  bool hasFP = false;
  for (Ex e : cs) { vs.insert(e->vars->begin(), e->vars->end()); hasFP |= e->hasFP; }
  auto take = [&](const Model &src) {
    auto r = std::make_shared<Model>();
    for (auto v : vs) { auto f = src.val.find(v); r->val.insert_or_assign(v, f == src.val.end() ? APInt(gVars[v].w, 0) : f->second); }
    return r;
  };
  for (auto &mm : recent) {
    bool ok = true;
    for (Ex e : cs) if (!mm->isTrue(e)) { ok = false; break; }
    if (ok) {
      gSS.modelHits++;
      auto r = take(*mm);
      if (m) for (auto &kv : r->val) m->val.insert_or_assign(kv.first, kv.second);
      cache[key] = {Res::Sat, r};
      return Res::Sat;
    }
  }
  if (orderRefutes(cs)) {
    gSS.queries++; gSS.unsat++; gSS.orderUnsat++;
    cache[key] = {Res::Unsat, nullptr};
    return Res::Unsat;
  }
  if (gCfg.icpSec > 0 && (hasFP || vs.size() <= 2)) {
    double t1 = nowSec(), left1 = gDeadline ? gDeadline - t1 : 1e9;
    auto r = std::make_shared<Model>();
    Res q = hasFP && vs.size() >= 2 && left1 > 0.05 && cutRefutes(cs, std::min(gCfg.icpSec, std::min(left1, 5.0))) ? Res::Unsat : Res::Unknown;
    if (q == Res::Unknown && left1 > 0.05) q = icpSolve(cs, std::min(gCfg.icpSec, left1), ~0ull, r.get());
    double dt1 = nowSec() - t1;
    gSS.time += dt1;
    if (dt1 > gSS.maxTime) gSS.maxTime = dt1;
    if (const char *sl = getenv("SYMX_SLOW"); sl && dt1 > atof(sl)) {
      fprintf(stderr, "slow icp query %.2f s res=%d n=%zu boxes %llu\n", dt1, (int)q, cs.size(), (unsigned long long)gIcp.boxes);
      for (auto a : cs) fprintf(stderr, "  %.900s\n", show(a, 7).c_str());
    }
    if (q != Res::Unknown) {
      gSS.queries++;
      if (q == Res::Unsat) gSS.unsat++;
      else {
        gSS.sat++;
        if (m) for (auto &kv : r->val) m->val.insert_or_assign(kv.first, kv.second);
        if (recent.size() < 12) recent.push_back(r);
        else { recent[recentPos] = r; recentPos = (recentPos + 1) % recent.size(); }
      }
      cache[key] = {q, r};
      return q;
    }
  }
  if (hasFP) {   // floating-point models are often easy to guess and hard to derive: every guess is checked by evaluation
    static uint64_t x = 0x9E3779B97F4A7C15ull;
    auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
    auto pick = [&](unsigned w) {
      if (w != 32 && w != 64) { APInt v(w, 0); for (unsigned b = 0; b < w; b += 64) v |= APInt(std::max<unsigned>(64, w), rnd()).zextOrTrunc(w).shl(b); return v; }
      double d;
      switch (rnd() % 7) {
      case 0: return APInt(w, w == 32 ? rnd() & 0xffffffff : rnd());
      case 1: d = (double)(int)(rnd() % 41) - 20; break;
      case 2: d = ((double)(int)(rnd() % 4001) - 2000) / 256; break;
      case 3: d = (double)(int64_t)rnd() / 9.3e18; break;
      case 4: d = (double)(int64_t)rnd() / 9.3e17; break;
      case 5: d = (double)(int64_t)rnd() / 9.3e14; break;
      default: { static const double sp[] = {0.0, -0.0, 1, -1, 0.5, -0.5, 1e30, -1e30, 1e-30, __builtin_inf(), -__builtin_inf(), __builtin_nan("")}; d = sp[rnd() % 12]; }
      }
      if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return APInt(32, u); }
      uint64_t u; memcpy(&u, &d, 8); return APInt(64, u);
    };
    for (int i = 0; i < 300; i++) {
      Model g;
      if (i % 3 && !recent.empty()) g = *recent[rnd() % recent.size()];
      bool keep = i % 3 == 1;   // change only some variables of a model that is near
      for (auto v : vs) if (!keep || rnd() % 2 || !g.val.count(v)) g.val.insert_or_assign(v, pick(gVars[v].w));
      bool ok = true;
      for (Ex e : cs) if (!g.isTrue(e)) { ok = false; break; }
      if (!ok) continue;
      gSS.modelHits++;
      auto r = take(g);
      if (m) for (auto &kv : r->val) m->val.insert_or_assign(kv.first, kv.second);
      if (recent.size() < 12) recent.push_back(r);
      else { recent[recentPos] = r; recentPos = (recentPos + 1) % recent.size(); }
      cache[key] = {Res::Sat, r};
      return Res::Sat;
    }
  }
  double t0 = nowSec();
  std::vector<Z3_ast> as;
  std::set<Ex> seen;
  for (Ex e : cs) as.push_back(tr.toBool(e));
  for (Ex e : cs) sideOf(e, seen, as);
  // side definitions may translate further nodes: they only contain FP terms already translated
  gSS.queries++;
  double left = gDeadline ? gDeadline - t0 : 1e9;
  unsigned ms = gCfg.fastMs;
  if (left < 0.05) return Res::Unknown;
  if (ms > left * 1000) ms = left * 1000;
  Res res = Res::Unknown;
  auto out = std::make_shared<Model>();
  static bool sweeping;
  for (int quick = hasFP ? 0 : 1; quick >= 0 && res == Res::Unknown; quick--) {
    if (!sweeping && quick == 0) {
      std::vector<Ex> c2 = cs;
      if (sweep(c2, nowSec() + std::min(60.0, left / 2))) {
        sweeping = true;
        res = solve(c2, out.get());
        sweeping = false;
        if (res != Res::Unknown) break;
      }
    }
    // small bit-vector queries: one incremental solver; the rest: a fresh solver with the full tactic
    static Z3_solver inc;
    static unsigned incUses;
    static std::unordered_map<Z3_ast, Z3_ast> lits;
    bool simple = !hasFP && quick;
    Z3_solver s;
    if (simple) {
      if (inc && incUses > 400) { Z3_solver_dec_ref(ctx, inc); inc = nullptr; }
      if (!inc) { inc = getenv("SYMX_INCSAT") ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")) : Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, inc); incUses = 0; lits.clear(); }
      s = inc;
      Z3_solver_inc_ref(ctx, s);
      if (ms > 300) ms = 300;
    } else {
      s = hasFP ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV")) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
      if (!s) s = Z3_mk_solver(ctx);
      Z3_solver_inc_ref(ctx, s);
    }
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, s, p);
    Z3_lbool r;
    if (simple) {
      std::vector<Z3_ast> assume;
      for (auto a : as) {
        auto it = lits.find(a);
        if (it == lits.end()) {
          Z3_ast l = tr.keep(Z3_mk_fresh_const(ctx, "l", Z3_mk_bool_sort(ctx)));
          Z3_solver_assert(ctx, s, tr.keep(Z3_mk_implies(ctx, l, a)));
          it = lits.emplace(a, l).first;
          incUses++;
        }
        assume.push_back(it->second);
      }
      r = Z3_solver_check_assumptions(ctx, s, assume.size(), assume.data());
    } else {
      for (auto a : as) Z3_solver_assert(ctx, s, a);
      r = Z3_solver_check(ctx, s);
    }
    if (r == Z3_L_FALSE) res = Res::Unsat;
    else if (r == Z3_L_TRUE) {
      Z3_model zm = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, zm);
      for (auto v : vs) {
        Z3_ast val = nullptr;
        APInt a(gVars[v].w, 0);
        if (tr.vars.count(v) && Z3_model_eval(ctx, zm, tr.vars[v], true, &val) && val) {
          Z3_inc_ref(ctx, val);
          const char *str = Z3_get_numeral_string(ctx, val);
          unsigned bits = std::max<unsigned>(gVars[v].w, strlen(str) * 4);
          a = APInt(bits, str, 10).trunc(gVars[v].w);
          Z3_dec_ref(ctx, val);
        }
        out->val.insert_or_assign(v, a);
      }
      Z3_model_dec_ref(ctx, zm);
      res = Res::Sat;
    }
    Z3_params_dec_ref(ctx, p);
    Z3_solver_dec_ref(ctx, s);
  }
  if (res == Res::Unknown && !gCfg.portfolio.empty()) {
    left = gDeadline ? gDeadline - nowSec() : 1e9;
    double b = std::min<double>(gCfg.extSec, left);
    if (b >= 1) res = external(as, vs, out.get(), hasFP, b);
  }
  if (res == Res::Sat) {
    // the solver's model must satisfy the constraints under our own evaluator
    for (Ex e : cs) if (!out->isTrue(e)) {
      fprintf(stderr, "symx: solver model does not satisfy constraint (op %d)\n", (int)e->op);
      res = Res::Unknown;
      break;
    }
  }
  double dt = nowSec() - t0;
  gSS.time += dt;
  if (dt > gSS.maxTime) gSS.maxTime = dt;
  if (const char *sl = getenv("SYMX_SLOW"); sl && dt > atof(sl)) {   // debugging: show slow queries
    fprintf(stderr, "slow query %.2f s res=%d n=%zu\n", dt, (int)res, cs.size());
    for (auto a : cs) fprintf(stderr, "  %.900s\n", show(a, 7).c_str());
  }
  if (res == Res::Sat) {
    gSS.sat++;
    if (m) for (auto &kv : out->val) m->val.insert_or_assign(kv.first, kv.second);
    if (recent.size() < 12) recent.push_back(out);
    else { recent[recentPos] = out; recentPos = (recentPos + 1) % recent.size(); }
  } else if (res == Res::Unsat) gSS.unsat++;
  else gSS.unknown++;
  if (res != Res::Unknown) cache[key] = {res, out};
  return res;
}
