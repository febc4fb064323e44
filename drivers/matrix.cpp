// P46: matrix files and the steps of the decomposition
#include <cybozu/nlp/svd.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S; typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V; typedef Eigen::SparseMatrix<double, Eigen::RowMajor> SM; namespace svd = cybozu::nlp::svd;
static Rng *gR;
#define R (*gR)
static const int F = 4000;
S list(const std::vector<S>& v) { return jlist(v); }
template<class T> S nums(const std::vector<T>& v) { std::vector<S> l; for (size_t i = 0; i < v.size(); i++) { char b[32]; snprintf(b, sizeof(b), "%lld", (long long)v[i]); l.push_back(b); } return jlist(l); }
template<class X> S rows(const X& m, double f) { std::vector<S> l; for (int i = 0; i < m.rows(); i++) { std::vector<long long> r; for (int j = 0; j < m.cols(); j++) { double x = m(i, j) * f, lim = f == F ? 3 * F : 2e9; if (!(x > -lim && x < lim)) x = lim; r.push_back(llround(x)); } l.push_back(nums(r)); } return jlist(l); }
S q(const S& s) { return "\"" + s + "\""; }
struct File { std::vector<S> head; std::vector<int> dims; std::vector<std::vector<S> > body; std::vector<std::vector<S> > jbody; S text; // text and its description
	static S num(int k) { char b[32]; snprintf(b, sizeof(b), "%g", k / 4.0); return b; }
	static S gap() { return R.chance(5, 6) ? " " : R.chance(1, 2) ? "  " : "\t"; }
	void write() { S t; for (size_t i = 0; i < head.size(); i++) t += head[i] + " "; for (size_t i = 0; i < dims.size(); i++) { char b[32]; snprintf(b, sizeof(b), "%d ", dims[i]); t += b; } if (R.chance(1, 8)) t += "\r"; t += "\n"; for (size_t i = 0; i < body.size(); i++) { for (size_t j = 0; j < body[i].size(); j++) t += (j ? gap() : S()) + body[i][j]; if (R.chance(1, 10)) t += " \r"; if (i + 1 < body.size() || body[i].empty() || R.chance(3, 4)) t += "\n"; } FILE *f = fopen("m.txt", "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
	S json() { std::vector<S> h, b; for (size_t i = 0; i < head.size(); i++) h.push_back(q(head[i])); for (size_t i = 0; i < jbody.size(); i++) b.push_back(jlist(jbody[i])); return jlist(h) + ",\"dims\":" + nums(dims) + ",\"body\":" + jlist(b); } };
int small() { return R.chance(1, 5) ? 0 : R.chance(1, 4) ? R.range(-400000, 400000) : R.range(-40, 40); }
void loadAll(Log& L, File& f) {
	f.write(); static const char *as[] = { "matrix", "sparse", "vector" };
	for (int k = 0; k < 3; k++) { L.about("Load"); bool ok = false; S m = "[]"; M d; V v; SM s; if (k == 0) { if (R.chance(1, 2)) { d = M(3, 2); d.setConstant(7); } ok = svd::LoadMatrix(d, "m.txt"); if (ok) m = rows(d, 4); } else if (k == 1) { ok = svd::LoadSparseMatrix(s, "m.txt"); if (ok) m = rows(M(s), 4); } else { ok = svd::LoadVector(v, "m.txt"); if (ok) m = rows(v, 4); }
		L.ev(J("load").str("as", as[k]).b("ok", ok).raw("m", m).raw("head", f.json())); } }
void dense(File& f, int row, int col) { for (int i = 0; i < row; i++) { std::vector<S> l, jl; for (int j = 0; j < col; j++) { int k = small(); l.push_back(File::num(k)); jl.push_back(J().b("bad", false).n("v", k).end()); if (R.chance(1, 12)) { f.body.push_back(l); f.jbody.push_back(jl); l.clear(); jl.clear(); } } f.body.push_back(l); f.jbody.push_back(jl); } }
void sparse(File& f, int row, int col) { for (int i = 0; i < row; i++) { std::vector<S> l, jl; for (int j = 0; j < col; j++) if (R.chance(1, 2)) { int k = small(); char b[64]; snprintf(b, sizeof(b), "%d:%s", j, File::num(k).c_str()); l.push_back(b); jl.push_back(J().b("bad", false).n("c", j).str("sep", ":").n("v", k).end()); } f.body.push_back(l); f.jbody.push_back(jl); } }
void spoil(File& f, bool sp, int col) { // one thing that is not as it should be
	size_t i = f.body.empty() ? 0 : R.below(f.body.size()); switch (R.below(9)) {
	case 0: if (!f.body.empty()) { f.body.pop_back(); f.jbody.pop_back(); } break; case 1: if (!f.body.empty()) { f.body[i].push_back("x"); f.jbody[i].push_back(J().b("bad", true).n("c", 0).str("sep", ":").n("v", 0).end()); } break;
	case 2: { size_t w = R.below(3); f.head[w] = w == 0 ? S(1, "MVDSx"[R.below(5)]) : w == 2 ? S(1, "#MVxd"[R.below(5)]) : f.head[2] == "D" ? S(1, "#MVDSx"[R.below(6)]) : S(1, "#DSx"[R.below(4)]); break; } case 3: if (!f.dims.empty()) f.dims[R.below(f.dims.size())] = R.range(-2, 5); break; case 4: if (!f.dims.empty()) f.dims.pop_back(); break; case 5: f.dims.clear(); f.head.resize(R.below(3)); break;
	case 6: if (sp && !f.body.empty()) { int c = R.chance(1, 2) ? col + R.below(3) : -1; char b[32]; snprintf(b, sizeof(b), "%d:3", c); f.body[i].push_back(b); f.jbody[i].push_back(J().b("bad", false).n("c", c).str("sep", ":").n("v", 12).end()); } break;
	case 7: if (sp && !f.body.empty()) { f.body[i].push_back("0;3"); f.jbody[i].push_back(J().b("bad", false).n("c", 0).str("sep", ";").n("v", 12).end()); } break; default: if (!sp) { f.body.push_back(std::vector<S>(1, "9")); f.jbody.push_back(std::vector<S>(1, J().b("bad", false).n("v", 36).end())); } } }
S readBack(bool sp) { // the written file: words of the header, numbers of the lines
	std::ifstream is("s.txt", std::ios::binary); S l; std::vector<S> h, b; std::vector<int> d; if (std::getline(is, l)) { std::istringstream s(l); S w; while (h.size() < 3 && s >> w) h.push_back(q(w)); int x; while (s >> x) d.push_back(x); }
	while (std::getline(is, l)) { std::istringstream s(l); std::vector<S> r; S w; while (s >> w) { char *e; if (sp) { long c = strtol(w.c_str(), &e, 10); double v = *e == ':' ? strtod(e + 1, &e) : 1e6; char t[64]; snprintf(t, sizeof(t), "[%ld,%lld]", c, *e ? -1ll : llround(v * 4)); r.push_back(t); } else { double v = strtod(w.c_str(), &e); char t[64]; snprintf(t, sizeof(t), "%lld", *e ? 99999999ll : llround(v * 4)); r.push_back(t); } } b.push_back(jlist(r)); }
	return jlist(h) + ",\"dims\":" + nums(d) + ",\"body\":" + jlist(b); }
void saveAll(Log& L, int row, int col) { M m(row, col); V v(row); for (int i = 0; i < row; i++) { v(i) = small() / 4.0; for (int j = 0; j < col; j++) m(i, j) = R.chance(1, 6) ? R.range(-90000000, 90000000) : small() / 4.0; } SM s(row, col); M ms = m; for (int i = 0; i < row; i++) { for (int j = 0; j < col; j++) if (R.chance(1, 2)) ms(i, j) = 0; } s = ms.sparseView();
	L.about("Save"); unlink("s.txt"); bool ok = svd::SaveMatrix("s.txt", m); L.ev(J("save").str("as", "matrix").b("ok", ok).raw("m", rows(m, 4)).raw("head", readBack(false))); M m2; L.ev(J("nofile").b("ok", !(svd::LoadMatrix(m2, "s.txt") && m2 == m)));
	ok = svd::SaveVector("s.txt", v); L.ev(J("save").str("as", "vector").b("ok", ok).raw("m", rows(v, 4)).raw("head", readBack(false))); V v2; L.ev(J("nofile").b("ok", !(svd::LoadVector(v2, "s.txt") && v2 == v)));
	ok = svd::SaveSparseMatrix("s.txt", s); L.ev(J("save").str("as", "sparse").b("ok", ok).raw("m", rows(ms, 4)).raw("head", readBack(true))); SM s2; L.ev(J("nofile").b("ok", !(svd::LoadSparseMatrix(s2, "s.txt") && M(s2) == ms))); L.ev(J("nofile").b("ok", !(svd::LoadMatrix(m2, "s.txt") && m2 == ms)));
	M x; L.ev(J("nofile").b("ok", svd::LoadMatrix(x, "nothing-here.txt"))); L.ev(J("nofile").b("ok", svd::SaveMatrix("no-dir-here/x", m))); if (access("/dev/full", W_OK) == 0) L.ev(J("nofile").b("ok", svd::SaveMatrix("/dev/full", m) || svd::SaveVector("/dev/full", v) || svd::SaveSparseMatrix("/dev/full", s))); }
M rnd(int row, int col, int lim) { M m(row, col); for (int i = 0; i < row; i++) for (int j = 0; j < col; j++) m(i, j) = R.range(-lim, lim); if (col > 1 && R.chance(1, 4)) m.col(R.below(col)) = m.col(R.below(col)) * 2; if (R.chance(1, 8)) m.col(R.below(col)).setZero(); return m; }
void steps(Log& L, int row, int col) {
	if (col <= row) { M u(row, col); u.setConstant(3); L.about("InitUnitMatrix"); svd::InitUnitMatrix(u); L.ev(J("unit").n("row", row).n("col", col).raw("m", rows(u, 1))); }
	for (int n = 1; n <= col; n++) { M m = rnd(row, col, 50), o(2, 1); L.about("CompressCol"); svd::CompressCol(o, m, n); L.ev(J("compress").n("n", n).raw("m", rows(m, 1)).raw("r", rows(o, 1))); }
	if (row <= 6 && col <= 6) for (int k = 0; k < 3; k++) { M m = rnd(row, col, 5), z = m; L.about("OrthonormalizeMatrix"); svd::OrthonormalizeMatrix(z); for (int i = 0; i < z.rows(); i++) for (int j = 0; j < z.cols(); j++) if (z(i, j) != 0 && fabs(z(i, j)) * F < 0.5 && z.col(j).norm() < 0.5) z(i, j) = 1; L.ev(J("ortho").raw("m", rows(m, 1)).raw("q", rows(z, F)));
		M a = rnd(row, col, 5), u, v; V s; int rank = R.chance(1, 8) ? -R.below(2) : R.chance(1, 2) ? 99 : 1 + R.below(6); L.about("ComputeSVD"); bool ok; if (R.chance(1, 2)) ok = cybozu::nlp::ComputeSVD(u, s, v, a, rank); else { SM sp = a.sparseView(); ok = cybozu::nlp::ComputeSVD(u, s, v, sp, rank); } std::vector<long long> sv; for (int i = 0; i < s.rows(); i++) sv.push_back(s(i) > -1000 && s(i) < 1000 ? llround(s(i) * 100) : 100000); L.ev(J("svd").n("rank", rank).b("ok", ok).raw("a", rows(a, 1)).raw("u", rows(u, F)).raw("v", rows(v, F)).raw("s", nums(sv))); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out); if (!freopen("/dev/null", "w", stderr)) return 2; std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) for (int k = 0; k < 2; k++) { L.start(); File f; const int row = sc[i][0], col = sc[i][1]; f.head.push_back("#"); f.head.push_back("M"); f.head.push_back(k ? "S" : "D"); f.dims.push_back(row); f.dims.push_back(col); if (k) sparse(f, row, col); else dense(f, row, col); loadAll(L, f); saveAll(L, row, col); steps(L, row, col); L.end(); }
	for (int i = 0; i < 150 * a.effort; i++) { L.start(); int row = 1 + R.below(7), col = 1 + R.below(7); bool sp = R.chance(1, 2), vec = R.chance(1, 3); File f; f.head.push_back("#"); f.head.push_back(vec ? "V" : "M"); f.head.push_back(sp ? "S" : "D"); f.dims.push_back(row); if (!vec) f.dims.push_back(col); if (sp && !vec) sparse(f, row, col); else dense(f, row, vec ? 1 : col); if (R.chance(2, 3)) spoil(f, sp && !vec, col); loadAll(L, f); if (R.chance(1, 3)) saveAll(L, row, col); if (R.chance(1, 3)) steps(L, 1 + R.below(12), 1 + R.below(12)); L.end(); }
	return 0; }
