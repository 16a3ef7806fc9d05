// C31: saved objects read back: complexes, matrices, maps, diagrams, lists of cubes, point clouds, command line values
#include "simp.hpp"
#include <util/io.hpp>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#ifndef BSX_SYMBOLIC
#include <filesystem>
#include <unistd.h>
#include <stdlib.h>
#endif
using namespace bats;
// a scratch directory of its own, removed at the end (the symbolic build keeps files in memory)
struct Scratch { std::string d;
#ifdef BSX_SYMBOLIC
  Scratch() : d("scratch") {}
#else
  Scratch() { char b[] = "/tmp/bsxioXXXXXX"; char* r = mkdtemp(b); d = r ? r : "/tmp"; if (!r) abort(); }
  ~Scratch() { std::filesystem::remove_all(d); }
#endif
  std::string operator()(const char* n) const { return d + "/" + n; }
};
inline void put(const std::string& f, const std::string& text) { std::ofstream o(f, std::ios::out); o << text; o.close(); }
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::in); std::string r, l; while (std::getline(i, l)) { r += l; r += '\n'; } return r; }
void spx(int n, size_t d, const vector<ZV>& c) {
  SimplicialComplex X = reorder(symsimp(n, c, "x", d), "order"); Scratch S; std::string f = S("x"); X.save(f); SimplicialComplex Y{std::string(f)}; agreesm(Y, smof(X), n, "complex read back");
  std::string g = S("absent"); SimplicialComplex Z{std::string(g)}; REQUIRE_MSG(Z.ncells() == 0, "missing file"); Y.save(f); SimplicialComplex W{std::string(f)}; REQUIRE_MSG(W.ncells() == X.ncells(), "saved again"); bsx::obs(Y.ncells()); END();
}
inline std::string num(int v) { return v < 0 ? "-" + num(-v) : v > 9 ? num(v / 10) + num(v % 10) : std::string(1, char('0' + v)); }
// values of every kind: written text is parsed by the library and compared with the original object
template <class T> T value(int v) { return T(v); }
template <> Rational<int> value<Rational<int>>(int v) { return Rational<int>(v, 2); }
template <> double value<double>(int v) { return v * 0.5; }
template <class M> bool same(const M& a, const M& b) { if (a.nrow() != b.nrow() || a.ncol() != b.ncol() || a.cols().size() != b.cols().size()) return false; for (size_t j = 0; j < a.ncol(); j++) { auto x = a[j].nzbegin(), y = b[j].nzbegin(); for (; x != a[j].nzend() && y != b[j].nzend(); ++x, ++y) if (x->ind != y->ind || !(x->val == y->val)) return false; if (x != a[j].nzend() || y != b[j].nzend()) return false; } return true; }
template <class T> ColumnMatrix<SparseVector<T, size_t>> anymat(const char* nm, size_t m, size_t n, int lo, int hi) { typedef SparseVector<T, size_t> V; vector<V> c; for (size_t j = 0; j < n; j++) { vector<size_t> i; vector<T> v; for (size_t r = 0; r < m; r++) { int x = bsx::pick(nm, lo, hi); T y = value<T>(x); if (!(y == T(0))) { i.push_back(r); v.push_back(y); } } c.push_back(V(i, v)); } return ColumnMatrix<V>(m, n, c); }
template <class T> void mat(size_t m, size_t n, int lo, int hi) {
  typedef ColumnMatrix<SparseVector<T, size_t>> M; M A = anymat<T>("a", m, n, lo, hi), B = anymat<T>("b", n, 1, lo, hi); Scratch S; std::string f = S("m"); A.save(f); M C(f); REQUIRE_MSG(same(A, C), "matrix read from a file"); REQUIRE(C.str() == A.str());
  std::ostringstream o; A.write(o); B.write(o); A.write(o); std::istringstream i(o.str()); std::istream& is = i; M D(is), E(is); D.read(is); REQUIRE_MSG(same(D, A) && same(E, B), "matrices read one after the other"); std::istringstream again(A.str()); E.read(again); REQUIRE_MSG(same(E, A), "read over another matrix");
  for (size_t j = 0; j < n; j++) { std::string l = A[j].str(); l.pop_back(); typename M::col_type v(l); REQUIRE_MSG(v == A[j], "vector read from a line"); } for (size_t j = 0; j < n; j++) bsx::obs(A[j].nnz()); END();
}
BSX_ENTRY(mi) { mat<int>(2, 2, -1, 1); }
BSX_ENTRY(mbig) { mat<int>(3, 1, -101, -99); }
BSX_ENTRY(m2) { mat<ModP<int, 2>>(2, 2, 0, 1); }
BSX_ENTRY(m3) { mat<ModP<int, 3>>(1, 3, 0, 2); }
BSX_ENTRY(mq) { mat<Rational<int>>(2, 1, -3, 3); }
BSX_ENTRY(md) { mat<double>(2, 1, -3, 3); }
BSX_ENTRY(me) { mat<int>(0, 2, 0, 0); }
BSX_ENTRY(mz) { mat<int>(2, 0, 0, 0); }
BSX_ENTRY(sx3) { spx(3, 2, cands(3, 2)); }
BSX_ENTRY(sx4) { spx(4, 2, {{0, 1}, {1, 2}, {0, 2}, {2, 3}, {0, 1, 2}}); }
BSX_ENTRY(sx0) { spx(1, 1, {}); SimplicialComplex X; Scratch S; std::string f = S("e"); X.save(f); SimplicialComplex Y{std::string(f)}; REQUIRE(Y.ncells() == 0); }
// maps of complexes
void cmap(int n, size_t d) {
  SimplicialComplex Y = symsimp(n, cands(n, d), "y", d); SimplicialComplex X = intersection(symsimp(n, cands(n, d), "x", d), Y); size_t nd = (size_t)bsx::pick("dims", 0, (int)d + 1); CellularMap F(X, Y), G; for (size_t k = 0; k < nd; k++) G[k] = F[k];
  Scratch S; std::string f = S("f"); CellularMap* g[] = {&F, &G}; for (auto* p : g) { p->save(f); CellularMap H(f); REQUIRE_MSG(H.maxdim() == p->maxdim(), "number of dimensions read back"); for (size_t k = 0; k + 1 <= H.maxdim() + 1; k++) REQUIRE_MSG(same((*p)[k], H[k]), "map read back"); bsx::obs(H.maxdim()); } END();
}
BSX_ENTRY(cm2) { cmap(2, 1); }
BSX_ENTRY(cm3) { cmap(3, 1); }
// diagrams: metadata, nodes and edges
BSX_ENTRY(diag) {
  size_t n = (size_t)bsx::pick("nodes", 0, 3), m = n ? (size_t)bsx::pick("edges", 0, 2) : 0; Diagram<SimplicialComplex, CellularMap> D(n, m); SimplicialComplex K = symsimp(2, cands(2, 1), "k", 1); vector<size_t> s, t; for (size_t i = 0; i < n; i++) { SimplicialComplex L(K); if (i % 2 == 0) L.add({i + 2}); D.set_node(i, L); }
  for (size_t e = 0; e < m; e++) { s.push_back((size_t)bsx::pick("s", 0, (int)n - 1)); t.push_back((size_t)bsx::pick("t", 0, (int)n - 1)); D.set_edge(e, s[e], t[e], CellularMap::identity(D.node_data(s[e]))); }
  Scratch S; std::string d = S("diagram"); D.save(d); std::string want = num(n) + "\n" + num(m) + "\n"; for (size_t e = 0; e < m; e++) want += num(s[e]) + "," + num(t[e]) + "\n"; REQUIRE_MSG(slurp(d + "/metadata") == want, "metadata");
  for (size_t i = 0; i < n; i++) { SimplicialComplex L{std::string(d + "/node" + num(i))}; REQUIRE(L.get_simplices() == D.node_data(i).get_simplices()); } for (size_t e = 0; e < m; e++) { std::string f = d + "/edge" + num(e); CellularMap M(f); REQUIRE(M.maxdim() == D.edge_data(e).maxdim()); for (size_t k = 0; k <= M.maxdim(); k++) REQUIRE(same(M[k], D.edge_data(e)[k])); } bsx::obs(n + m); END();
}
// lists of cubes: any values, with or without a final newline, trailing commas or blank lines
void cubes(size_t lines, size_t dim, int hi) {
  std::string text; CubicalComplex R(dim); bool bad = false; for (size_t l = 0; l < lines; l++) { ZV c; std::string line; for (size_t i = 0; i < 2 * dim; i++) { c.push_back((size_t)bsx::pick("x", 0, hi)); line += num(c.back()) + (i + 1 < 2 * dim ? "," : ""); } for (size_t i = 0; i < 2 * dim; i += 2) ASSUME(c[i] <= c[i + 1] && c[i + 1] <= c[i] + 1); int how = bsx::pick("format", 0, 2); if (how == 1) line += ","; text += line; if (how != 2 || l + 1 < lines) text += "\n"; try { R.add(c); } catch (const std::runtime_error&) { bad = true; } }
  ASSUME(!bad); Scratch S; std::string f = S("cubes"); put(f, text); CubicalComplex X(dim); X.load_cubes(f); for (size_t k = 0; k <= dim; k++) { REQUIRE_MSG(X.ncells(k) == R.ncells(k), "cubes read"); for (size_t i = 0; i < R.ncells(k); i++) REQUIRE_MSG(X.get_cube(k, i) == R.get_cube(k, i), "cubes read"); bsx::obs(X.ncells(k)); } END();
}
BSX_ENTRY(cu1) { cubes(2, 1, 2); }
BSX_ENTRY(cu2) { cubes(1, 2, 2); }
// point clouds: one point per line; rows with too few or too many entries must not disturb other points
void cloud(size_t rows, size_t cols, int lo, int hi, bool ragged) {
  bool header = bsx::symb("header"); std::string text = header ? "x,y\n" : ""; vector<vector<int>> v; for (size_t r = 0; r < rows; r++) { v.push_back({}); size_t w = (ragged && r > 0) ? (size_t)bsx::pick("width", 1, (int)cols + 1) : cols; for (size_t c = 0; c < w; c++) { int x = bsx::pick("x", lo, hi); v.back().push_back(x); text += (c ? "," : "") + num(x) + ".5"; } int how = bsx::pick("format", 0, 2); if (how == 1) text += ","; if (how != 2 || r + 1 < rows) text += "\n"; }
  Scratch S; std::string f = S("points"); put(f, text); auto A = read_point_cloud(f, header); DataSet<double> X(A); REQUIRE_MSG(X.size() == rows && X.dim() == cols, "one point per line"); for (size_t r = 0; r < rows; r++) { for (size_t c = 0; c < cols && c < v[r].size(); c++) { double want = v[r][c] < 0 ? v[r][c] - 0.5 : v[r][c] + 0.5; if (v[r][c] == 0) want = 0.5; REQUIRE_MSG(X(r, c) == want && X[r](c) == want, "coordinate"); bsx::obs(v[r][c]); } } END();
}
BSX_ENTRY(pc1) { cloud(2, 2, -1, 1, false); }
BSX_ENTRY(pc2) { cloud(3, 1, 0, 1, true); }
BSX_ENTRY(pc3) { cloud(2, 2, 0, 0, true); }
BSX_ENTRY(pc4) { cloud(1, 3, -1, 1, false); }
// simplices and lists of simplices
BSX_ENTRY(line) { ZV s; size_t n = (size_t)bsx::pick("n", 0, 3); for (size_t i = 0; i < n; i++) s.push_back((size_t)bsx::pick("v", 0, 12)); std::ostringstream o; bats::util::write_simplex(o, s); std::string t = o.str(); if (!t.empty() && t.back() == '\n') t.pop_back(); ZV r{7, 7}; bats::util::read_simplex(t, r); REQUIRE_MSG(r == s, "simplex read back"); bsx::obs(r.size()); END(); }
// command line values
BSX_ENTRY(argv) {
  const char* opts[] = {"-n=3", "-nn=4", "-s=a=b", "-n=5", "n", "-x=2.5", "-s="}; size_t k = (size_t)bsx::pick("args", 0, 3); char prog[] = "-n=9"; vector<char*> av{prog}; vector<std::string> txt; for (size_t i = 0; i < k; i++) { const char* o = opts[bsx::pick("opt", 0, 6)]; txt.push_back(o); av.push_back((char*)o); }
  int n = 1; double x = 0.5; std::string s = "d"; for (size_t i = k; i-- > 0;) { const std::string& t = txt[i]; if (t == "-n=3") n = 3; if (t == "-n=5") n = 5; if (t == "-x=2.5") x = 2.5; if (t == "-s=a=b") s = "a=b"; if (t == "-s=") s = ""; }
  REQUIRE(bats::util::io::parse_argv((int)av.size(), av.data(), "-n", 1) == n); REQUIRE(bats::util::io::parse_argv((int)av.size(), av.data(), "-x", 0.5) == x); REQUIRE(bats::util::io::parse_argv((int)av.size(), av.data(), "-s", std::string("d")) == s); bsx::obs(n); END();
}
#if BSX_TIER
BSX_ENTRY(tsx) { spx(4, 2, cands(4, 2)); }
BSX_ENTRY(tm) { mat<int>(2, 2, -2, 2); }
BSX_ENTRY(tcm) { cmap(3, 2); }
BSX_ENTRY(tcu) { cubes(2, 2, 2); }
BSX_ENTRY(tpc) { cloud(3, 2, 0, 1, true); }
#endif
