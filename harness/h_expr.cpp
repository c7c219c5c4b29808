#include "hh.hpp"
#include "Omega_h_expr.hpp"
#include "Omega_h_math_lang.hpp"
#include "Omega_h_library.hpp"
#include <string>
#include <map>
#include <cmath>
// ---- C21: expressions, against a recursive descent evaluator over the entries
static int choose(char const* n, int lo, int hi) { return (int)osym_choose(n, lo, hi); }
enum { SCALAR, VECTOR, MATRIX, BOOL };
static int N, D;
struct V { int kind = SCALAR; bool arr = false; std::vector<Real> x; std::vector<int> b; int nc() const { return kind == VECTOR ? D : kind == MATRIX ? D * D : 1; } };
static std::map<std::string, V> var;
static V mk(int kind, bool arr) { V v; v.kind = kind; v.arr = arr; if (kind == BOOL) v.b.assign(N, 0); else v.x.assign(N * v.nc(), 0); return v; }
struct Eval {
  std::string s; size_t p = 0;
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n')) ++p; }
  bool at(char const* t) { ws(); return s.compare(p, std::string(t).size(), t) == 0; }
  bool eat(char const* t) { if (!at(t)) return false; p += std::string(t).size(); ws(); return true; }
  static V each(V const& a, V const& b, int op) { V r = mk(a.kind, a.arr || b.arr); int n = a.nc(), m = b.nc(); for (int i = 0; i < N; ++i) for (int c = 0; c < n; ++c) { Real u = a.x[i * n + c], w = b.x[i * m + (m == n ? c : 0)]; r.x[i * n + c] = op == '+' ? u + w : op == '-' ? u - w : op == '*' ? u * w : u / w; } return r; }
  static V mul(V const& a, V const& b) {
    if (b.kind == SCALAR) return each(a, b, '*'); if (a.kind == SCALAR) return each(b, a, '*'); V r = mk(a.kind == VECTOR ? SCALAR : b.kind == VECTOR ? VECTOR : MATRIX, a.arr || b.arr);
    for (int e = 0; e < N; ++e) { if (a.kind == VECTOR) { for (int i = 0; i < D; ++i) r.x[e] += a.x[e * D + i] * b.x[e * D + i]; } else for (int i = 0; i < D; ++i) for (int j = 0; j < (b.kind == VECTOR ? 1 : D); ++j) for (int k = 0; k < D; ++k) r.x[(e * D + i) * (b.kind == VECTOR ? 1 : D) + j] += a.x[(e * D + i) * D + k] * (b.kind == VECTOR ? b.x[e * D + k] : b.x[(e * D + k) * D + j]); } return r; }
  std::vector<V> args() { std::vector<V> a; if (at(")")) { eat(")"); return a; } do a.push_back(tern()); while (eat(",")); ASSERT(eat(")")); return a; }
  V scalar() {
    ws(); if (eat("(")) { V v = tern(); ASSERT(eat(")")); return v; }
    if (s[p] >= '0' && s[p] <= '9') { char* e; Real d = strtod(s.c_str() + p, &e); p = e - s.c_str(); ws(); V v = mk(SCALAR, false); for (auto& q : v.x) q = d; return v; }
    std::string n; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) n += s[p++]; ws();
    if (!eat("(")) { ASSERT(var.count(n)); return var[n]; }
    auto a = args(); if (var.count(n)) { V const& v = var[n]; int i = (int)a[0].x[0], j = v.kind == MATRIX ? (int)a[1].x[0] : 0; V r = mk(SCALAR, v.arr); for (int e = 0; e < N; ++e) r.x[e] = v.kind == MATRIX ? v.x[(e * D + i) * D + j] : v.x[e * D + i]; return r; }
    int kind = n == "vector" ? VECTOR : n == "matrix" || n == "tensor" ? MATRIX : SCALAR; V r = mk(kind, false); for (auto& q : a) if (q.arr) r.arr = true; int nc = r.nc();
    if (kind != SCALAR) { for (int e = 0; e < N; ++e) for (int c = 0; c < nc; ++c) r.x[e * nc + c] = a[std::min(c, (int)a.size() - 1)].x[e]; if (kind == MATRIX && a.size() == 1) r.arr = true; return r; }
    for (int e = 0; e < N; ++e) { Real q = 0; if (n == "norm") { for (int i = 0; i < D; ++i) q += a[0].x[e * D + i] * a[0].x[e * D + i]; q = std::sqrt(q); } else { q = a[0].x[e]; q = n == "sqrt" ? std::sqrt(q) : n == "exp" ? std::exp(q) : n == "sin" ? std::sin(q) : n == "cos" ? std::cos(q) : std::erf(q); } r.x[e] = q; } return r; }
  V pow_() { V a = scalar(); if (!eat("^")) return a; V b = pow_(); V r = mk(SCALAR, a.arr || b.arr); for (int e = 0; e < N; ++e) r.x[e] = std::pow(a.x[e], b.x[e]); return r; }
  V neg() { if (eat("-")) { V v = neg(); for (auto& q : v.x) q = -q; return v; } return pow_(); }
  V muls() { V a = neg(); while (true) { if (eat("*")) a = mul(a, pow_()); else if (eat("/")) a = each(a, pow_(), '/'); else return a; } }
  V adds() { V a = muls(); while (true) { if (eat("+")) a = each(a, muls(), '+'); else if (eat("-")) a = each(a, muls(), '-'); else return a; } }
  V comp() { size_t q = p; if (at("(")) { int dep = 0; size_t k = p; do { if (s[k] == '(') ++dep; if (s[k] == ')') --dep; ++k; } while (dep); while (k < s.size() && isspace((unsigned char)s[k])) ++k; bool inner = false; for (size_t z = q; z < k; ++z) if (s[z] == '<' || s[z] == '>' || s[z] == '=') inner = true; if (inner) { eat("("); V v = ors(); ASSERT(eat(")")); return v; } }
    V a = adds(); int op = eat("==") ? '=' : eat(">") ? '>' : eat("<") ? '<' : 0; ASSERT(op); V b = adds(); V r = mk(BOOL, a.arr || b.arr); for (int e = 0; e < N; ++e) r.b[e] = op == '=' ? a.x[e] == b.x[e] : op == '>' ? a.x[e] > b.x[e] : a.x[e] < b.x[e]; return r; }
  static V logic(V a, V const& b, bool an) { a.arr = a.arr || b.arr; for (int e = 0; e < N; ++e) a.b[e] = an ? a.b[e] & b.b[e] : a.b[e] | b.b[e]; return a; }
  V ands() { V a = comp(); while (eat("&&")) a = logic(a, comp(), true); return a; }
  V ors() { V a = ands(); while (eat("||")) a = logic(a, ands(), false); return a; }
  V tern() { bool q = false; int dep = 0; for (size_t k = p; k < s.size(); ++k) { if (s[k] == '(') ++dep; if (s[k] == ')' && --dep < 0) break; if (!dep && (s[k] == ',' || s[k] == ';')) break; if (!dep && s[k] == '?') q = true; } if (!q) return adds(); V c = ors(); ASSERT(eat("?")); V a = adds(); ASSERT(eat(":")); V b = adds(); V r = mk(a.kind, c.arr || a.arr || b.arr); int n = a.nc(); for (int e = 0; e < N; ++e) for (int i = 0; i < n; ++i) r.x[e * n + i] = c.b[e] ? a.x[e * n + i] : b.x[e * n + i]; return r; }
  V program() { while (true) { size_t k = p; ws(); std::string n; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) n += s[p++]; ws(); if (!n.empty() && p + 1 < s.size() && s[p] == '=' && s[p + 1] != '=') { eat("="); V v = tern(); ASSERT(eat(";")); var[n] = v; } else { p = k; V v = tern(); ASSERT(p == s.size()); return v; } } }
};
static any give(V const& v) {
  if (v.arr) { Write<Real> w((LO)v.x.size()); for (size_t i = 0; i < v.x.size(); ++i) w[(LO)i] = v.x[i]; return any(Reals(w)); }
  if (v.kind == SCALAR) return any(Real(v.x[0]));
#define G(d) if (D == d) { if (v.kind == VECTOR) { Vector<d> r; for (int i = 0; i < d; ++i) r[i] = v.x[i]; return any(r); } Tensor<d> r; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) r(i, j) = v.x[i * d + j]; return any(r); }
  G(1) G(2) G(3)
#undef G
  return any(); }
template <class F> static void against(any& got, V const& w, F same) {
  if (w.arr) { ASSERT(got.type() == typeid(Reals)); auto r = any_cast<Reals>(got); ASSERT(r.size() == (LO)w.x.size()); for (LO i = 0; i < r.size(); ++i) same(r[i], w.x[i]); return; }
  if (w.kind == SCALAR) { ASSERT(got.type() == typeid(Real)); same(any_cast<Real>(got), w.x[0]); return; }
#define G(d) if (D == d) { if (w.kind == VECTOR) { ASSERT(got.type() == typeid(Vector<d>)); auto r = any_cast<Vector<d>>(got); for (int i = 0; i < d; ++i) same(r[i], w.x[i]); } else { ASSERT(got.type() == typeid(Tensor<d>)); auto r = any_cast<Tensor<d>>(got); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) same(r(i, j), w.x[i * d + j]); } }
  G(1) G(2) G(3)
#undef G
}
static V fresh(int kind, bool arr, char const* n, int R) { V v = mk(kind, arr); int nc = v.nc(); for (int c = 0; c < (arr ? N : 1) * nc; ++c) v.x[c] = osym_fint(n, -R, R); if (!arr) for (int e = 1; e < N; ++e) for (int c = 0; c < nc; ++c) v.x[e * nc + c] = v.x[c]; return v; }
static V fixed(Real x, bool arr) { V v = mk(SCALAR, arr); for (auto& q : v.x) q = x; return v; }
// both readers against the evaluator; the operation list twice, the second time with other values
static void judge(std::string const& text, int again_range = 0) {
  auto start = var; Eval ev; ev.s = text; V want = ev.program(); int ok = 1; auto same = [&](Real a, Real b) { ok &= int(a == b); };
  { ExprReader r(N, D); for (auto& kv : start) r.register_variable(kv.first, give(kv.second)); any g = r.read_string(text, "expression"); against(g, want, same); }
  ExprOpsReader rd; auto ops = rd.read_ops(text); ExprEnv env(N, D); for (auto& kv : start) env.register_variable(kv.first, give(kv.second)); any g = ops->eval(env); against(g, want, same);
  if (again_range) { var.clear(); for (auto& kv : start) { bool sym = kv.first == "s" || kv.first == "t" || kv.first == "u"; var[kv.first] = sym ? fresh(kv.second.kind, kv.second.arr, "again", again_range) : kv.second; } ExprEnv env2(N, D); for (auto& kv : var) env2.register_variable(kv.first, give(kv.second)); Eval e2; e2.s = text; V w2 = e2.program(); any g2 = ops->eval(env2); against(g2, w2, same); }
  ASSERT(ok); }
static std::string spaced(std::string const& t, int style) { std::string r; for (char c : t) { if (c == ' ') { if (style == 1) r += " "; if (style == 2) r += "\t\n "; } else r += c; } return r; }
static void setup() { D = param("D", 2); math_lang::ask_reader_tables(); N = param("ENTRIES", 2); var.clear(); }
// up to three scalar operations of any kind, grouped in any way, over numbers and arrays
H(ex_scalar) {
  setup(); int arrs = choose("arrays", 0, param("ARRAYS", 3)), ops = param("OPS", 3); static char const* const K[] = {" + ", " - ", " * ", " / "}; static char const* const X[] = {"s", "t", "u", "2.5"};
  int o[3]; for (int i = 0; i < ops; ++i) o[i] = choose("op", 0, 3); int group = choose("group", 0, ops == 3 ? 4 : ops == 2 ? 1 : 0), minus = choose("minus", 0, param("MINUS", 2)); int style = param("STYLE", 1);
  // group: 0 none, 1 (1 2), 2 (1 2 3), 3 (2 3), 4 ((1 2) 3)
  int open[4] = {0, 0, 0, 0}, close[4] = {0, 0, 0, 0}; if (group == 1) open[1] = close[2] = 1; if (group == 2) open[1] = close[3] = 1; if (group == 3) open[2] = close[3] = 1; if (group == 4) { open[1] = 2; close[2] = close[3] = 1; }
  std::string t; if (minus == 1) t += "-"; for (int i = 0; i <= ops; ++i) { bool div = i && o[i - 1] == 3; if (div && open[i]) { osym_assume(0); return; } for (int k = 0; k < open[i]; ++k) t += "("; if (minus == 2 && i && !open[i] && o[i - 1] < 2) t += "-"; if (minus == 2 && open[i]) t += "-"; t += div ? (i & 1 ? "q" : "4") : X[i]; for (int k = 0; k < close[i]; ++k) t += ")"; if (i < ops) t += K[o[i]]; }
  var["s"] = fresh(SCALAR, arrs & 1, "s", 4); var["t"] = fresh(SCALAR, arrs & 2, "t", 4); var["u"] = fresh(SCALAR, (arrs & 1) && (arrs & 2), "u", 4); var["q"] = fixed(2, arrs & 2); judge(spaced(t, style), 4); REACH("scalar"); }
// conditions: three comparisons joined and grouped in any way select one branch per entry
H(ex_cond) {
  setup(); int arrs = choose("arrays", 0, 3); static char const* const R[] = {" < ", " > ", " == "}; static char const* const J[] = {" && ", " || "}; int n = param("COMPS", 3), rel[3]; for (int i = 0; i < n; ++i) rel[i] = (param("RELS", 3) == 1 ? (i + param("REL0", 0)) % 3 : choose("relation", 0, 2)); int j[2]; for (int i = 0; i + 1 < n; ++i) j[i] = choose("join", 0, 1); int group = n == 3 ? choose("group", 0, 2) : 0; static char const* const C[] = {"s", "t", "t", "u", "s + t", "u"};
  std::string x; for (int i = 0; i < n; ++i) { if ((group == 1 && i == 0) || (group == 2 && i == 1)) x += "("; x += std::string(C[2 * i]) + R[rel[i]] + C[2 * i + 1]; if ((group == 1 && i == 1) || (group == 2 && i == 2)) x += ")"; if (i + 1 < n) x += J[j[i]]; } x += param("VEC", 0) ? " ? v : w" : choose("branches", 0, 1) ? " ? s + 1 : t * 2" : " ? 3 : u"; var["s"] = fresh(SCALAR, arrs & 1, "s", 3); var["t"] = fresh(SCALAR, arrs & 2, "t", 3); var["u"] = fresh(SCALAR, false, "u", 3); if (param("VEC", 0)) { if (!arrs) { osym_assume(0); return; } var["v"] = fresh(VECTOR, choose("va", 0, 1), "v", 3); var["w"] = fresh(VECTOR, true, "w", 3); } judge(x); REACH("cond"); }
// vectors and matrices
H(ex_tensor) {
  setup(); static char const* const T[] = {"v + w", "v - w", "v * s", "s * v", "v * w", "v / q", "-v", "-v - w * s", "v(0)", "v(d - 1)", "vector(s, 2, u)", "vector(s)", "m * v", "m * k", "m + k", "m - k", "m * s", "s * m", "m / q", "-m", "m(0, d - 1)", "m(d - 1, 0)", "I * v", "m * I", "m * k * v", "v * w * s", "(v * w) * v", "m * (v + w)", "x = m * v; x * w", "x = v + w; y = x(0); y * s", "I", "d * s", "matrix(0)", "norm(c)", "s < 1 ? v * w : m(0, 0)"}; int nt = sizeof T / sizeof *T; int lo = param("FROM", 0), hi = param("TO", nt - 1); std::string x = T[choose("text", lo, hi)]; int arrs = choose("arrays", 0, param("ARRAYS", 3));
  if (x == "vector(s, 2, u)") { if (D == 1) x = "vector(s)"; if (D == 2) x = "vector(s, u)"; }
  var["v"] = fresh(VECTOR, arrs & 1, "v", 3); var["w"] = fresh(VECTOR, arrs & 2, "w", 3); var["m"] = fresh(MATRIX, arrs & 1, "m", 3); var["k"] = fresh(MATRIX, arrs & 2, "k", 3); var["s"] = fresh(SCALAR, arrs & 2, "s", 3); var["u"] = fresh(SCALAR, arrs & 1, "u", 3); var["q"] = fixed(4, arrs & 2); V c = mk(VECTOR, arrs & 1); for (int e = 0; e < N; ++e) for (int i = 0; i < D; ++i) c.x[e * D + i] = i == 2 ? 0 : 3 + i; var["c"] = c; V I = mk(MATRIX, false); for (int e = 0; e < N; ++e) for (int i = 0; i < D; ++i) I.x[(e * D + i) * D + i] = 1; auto keep = var; Eval dummy; (void)dummy; 
  var["I"] = I; var["d"] = fixed(D, false); judge(x); REACH("tensor"); }
// matrices by entries, numbers, powers and functions
H(ex_misc) {
  setup(); static char const* const T[] = {"2^3^2", "-2^2", "2^2 * s", "s * 2^3", "(s + t) * 4^0.5", "1.5e1 * s", "1e-1", "0.125", "12.", "7", "2E+2 - s", "sqrt(c)", "exp(c)", "sin(c)", "cos(c)", "erf(c)", "sqrt(c * c)", "sqrt(exp(c))", "c^2", "2^c", "c^c", "x = s + t; y = x * x; y - u", "x = s; x = x + t; x * x", "a_1 + _b", "s+t;"}; int nt = sizeof T / sizeof *T; std::string x = T[choose("text", 0, nt - 2)]; int arrs = choose("arrays", 0, 3); var["s"] = fresh(SCALAR, arrs & 1, "s", 4); var["t"] = fresh(SCALAR, arrs & 2, "t", 4); var["u"] = fresh(SCALAR, false, "u", 4); var["a_1"] = var["s"]; var["_b"] = var["t"]; V c = mk(SCALAR, arrs & 1); for (int e = 0; e < N; ++e) c.x[e] = arrs & 1 ? 1 + e : 2; var["c"] = c; judge(x); REACH("misc"); }
H(ex_matrix) {
  setup(); int arrs = choose("arrays", 0, 3), tensor = choose("tensor", 0, 1); std::string x = tensor ? "tensor(" : "matrix("; static char const* const A[] = {"s", "t", "u", "1", "s + t", "u", "s", "2", "t"}; for (int i = 0; i < D * D; ++i) x += (i ? ", " : "") + std::string(A[i]); x += ")"; int use = choose("use", 0, 3); if (use == 1) x = "z = " + x + "; z(0, d - 1)"; if (use == 2) x = "z = " + x + "; z * v"; if (use == 3) x = "z = " + x + "; z(d - 1, 0) + z(0, 0)"; var["s"] = fresh(SCALAR, arrs & 1, "s", 3); var["t"] = fresh(SCALAR, arrs & 2, "t", 3); var["u"] = fresh(SCALAR, false, "u", 3); var["v"] = fresh(VECTOR, arrs & 2, "v", 3); var["d"] = fixed(D, false); judge(x); REACH("matrix"); }
// what has no meaning is reported, not evaluated
H(ex_bad) {
  setup(); static char const* const T[] = {"", "s +", "s t", "s * * t", "(s", "s)", "z", "z(1)", "s = 2", "s = 2;", "s < t", "s ? t : u", "1 2", "#", "s @ t", "s >= t ? s : t", "v(0", "vector()", "vector(s, t, s, t)", "matrix(s)", "v(7)", "v(0 - 1)", "m(0, 7)", "m(7, 0)", "m(0)", "v + s", "v + m", "s / v", "s && t ? s : t", "sqrt()", "sqrt(s, t)", "norm(s)", "v()", "s()", "s(0)", "exp(v)", "v ^ 2", "2 ^ v", "a = ; 3", "s < t ? v : w", "symm(s)", "matrix(v, v, v, v)", "vector(v)"}; int nt = sizeof T / sizeof *T; std::string x = T[choose("text", 0, nt - 1)]; int arrs = choose("arrays", 0, 3); var["s"] = fixed(2, arrs & 1); var["t"] = fixed(3, arrs & 1); for (auto n : {"v", "w"}) { V v = mk(VECTOR, arrs & 2); for (auto& q : v.x) q = 1; var[n] = v; } V m = mk(MATRIX, arrs & 2); for (auto& q : m.x) q = 1; var["m"] = m; bool maybe = x == "s < t ? v : w" || x == "vector(v)" || x == "s / v" || x == "v + s" || x == "v + m" || x == "m(0)" || x == "v()" || x == "matrix(v, v, v, v)" || x == "symm(s)" || x == "norm(s)";
  int threw = 0; try { ExprReader r(N, D); for (auto& kv : var) r.register_variable(kv.first, give(kv.second)); osym_expect_abort(maybe); r.read_string(x, "expression"); osym_expect_abort(0); } catch (std::exception const&) { ++threw; } int threw2 = 0; try { ExprOpsReader rd; auto ops = rd.read_ops(x); ExprEnv env(N, D); for (auto& kv : var) env.register_variable(kv.first, give(kv.second)); osym_expect_abort(maybe); ops->eval(env); osym_expect_abort(0); } catch (std::exception const&) { ++threw2; } bool fine = x == "s < t"; if (!fine && !maybe) ASSERT(threw && threw2); REACH("bad"); }
