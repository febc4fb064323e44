// P42: word statistics. Histories of words and document ends (from the model and random ones) go to Df and TfIdf.
#include <cybozu/nlp/tfidf.hpp>
#include <sstream>
#include <unistd.h>
#include "verif.hpp"
using namespace verif; namespace nl = cybozu::nlp; typedef std::string S; typedef std::vector<S> SV;
static Rng *gR;
#define R (*gR)
static S keyPath;
long long micro(double x) { if (!(x > -2000 && x < 2000)) return 2000000000; return (long long)floor(x * 1e6 + 0.5); }
S logs(int n) { std::vector<long long> v; for (int d = 1; d <= n; d++) v.push_back(micro(log(double(n) / d))); return v.empty() ? "[]" : J::arr(&v[0], v.size()); }
S ints(const std::vector<int>& v) { return v.empty() ? "[]" : J::arr(&v[0], v.size()); }
S words(const SV& v) { std::vector<S> l; for (size_t i = 0; i < v.size(); i++) l.push_back(jbytes(v[i])); return jlist(l); }
void stat(Log& L, const nl::Df& d) { std::vector<int> ids; for (size_t i = 0; i < d.id2word_.size(); i++) { nl::Str2Int::const_iterator p = d.word2id_.find(d.id2word_[i]); ids.push_back(p == d.word2id_.end() ? -1 : p->second + 1); } if (d.word2id_.size() != d.id2word_.size()) ids.push_back(-2); L.ev(J("dstat").n("n", d.docNum_).raw("w", words(d.id2word_)).raw("c", ints(d.df_)).raw("ids", ints(ids))); }
void term(Log& L, const nl::Df& d0, int low, int num) {
	nl::Df d(d0); d.term(low, num / 16.0); std::vector<S> l; for (size_t i = 0; i < d.pv_.size(); i++) { int x[2] = { d.pv_[i].id + 1, d.pv_[i].freq }; l.push_back(J::arr(x, 2)); } L.ev(J("dterm").n("low", low).n("num", num).n("den", 16).raw("out", jlist(l)));
	std::ostringstream os; os << d; std::istringstream is(os.str()); std::vector<int> ids; for (size_t i = 0; i < d.pv_.size(); i++) ids.push_back(d.pv_[i].id + 1); l.clear(); S line;
	while (std::getline(is, line)) { size_t a = line.find('\t'), b = a == S::npos ? a : line.find('\t', a + 1); if (b == S::npos) { l.push_back(J().bytes("w", line).n("c", -1).n("v", 0).end()); continue; } l.push_back(J().bytes("w", line.substr(0, a)).n("c", atoi(line.c_str() + a + 1)).n("v", micro(atof(line.c_str() + b + 1))).end()); }
	L.ev(J("dprint").raw("ids", ints(ids)).raw("out", jlist(l)).raw("logs", logs(d.docNum_))); }
void final(Log& L, nl::TfIdf& t, size_t k) {
	L.about("term"); t.term(); std::vector<S> tf, sv; std::vector<int> c(k, 0);
	for (size_t i = 0; i < t.tf_.size(); i++) { std::vector<int> v(k, 0); for (nl::Int2Int::const_iterator j = t.tf_[i].begin(); j != t.tf_[i].end(); ++j) { if (j->first >= 0 && j->first < (int)k) v[j->first] = j->second; else v.push_back(-1); } tf.push_back(ints(v)); }
	for (size_t i = 0; i < t.sv_.size(); i++) { std::vector<S> l; for (nl::DoubleSvec::const_iterator j = t.sv_[i].begin(), je = t.sv_[i].end(); j != je; ++j) { long long x[2] = { (long long)j->pos() + 1, micro(j->val()) }; l.push_back(J::arr(x, 2)); } sv.push_back(jlist(l)); }
	L.ev(J("tterm").raw("w", words(t.id2word_)).raw("c", ints(t.df_)).raw("tf", jlist(tf)).raw("sv", jlist(sv)).raw("logs", logs((int)t.tf_.size()))); }
typedef std::pair<S, bool> Line; typedef std::vector<Line> Lines;
void session(Log& L, const Lines& lines, const SV& ops) { // op "\n": end of the document
	L.start(J().end()); nl::Df d; nl::TfIdf t; S f; std::vector<S> jl; size_t keys = 0; std::set<S> seen; bool open = true; bool nl = R.chance(3, 4);
	for (size_t i = 0; i < lines.size(); i++) { f += lines[i].first; if (lines[i].second) f += R.chance(1, 2) ? "\t3\t0.5" : "\t"; if (i + 1 < lines.size() || nl || lines[i].first.empty()) f += '\n'; jl.push_back(J().bytes("w", lines[i].first).b("tab", lines[i].second).end()); if (!lines[i].second) open = false; if (open && seen.insert(lines[i].first).second) keys++; }
	if (R.chance(1, 8)) { L.ev(J("tkey").b("there", false).b("r", t.loadKeywordFile(keyPath + ".none")).raw("lines", "[]")); }
	FILE *fp = fopen(keyPath.c_str(), "wb"); if (!fp || fwrite(f.data(), 1, f.size(), fp) != f.size() || fclose(fp)) { perror("key"); exit(2); }
	L.about("loadKeywordFile"); bool r = t.loadKeywordFile(keyPath); L.ev(J("tkey").b("there", true).b("r", r).raw("lines", jlist(jl)));
	for (size_t i = 0; i < ops.size(); i++) { if (ops[i] == "\n") { L.about("endDoc"); d.endDoc(); L.ev(J("dend")); t.endDoc(); L.ev(J("tend")); } else { L.about("append"); d.append(ops[i]); L.ev(J("dapp").bytes("w", ops[i])); t.append(ops[i]); L.ev(J("tapp").bytes("w", ops[i])); } if (R.chance(1, 12)) stat(L, d); }
	if (!ops.empty() && ops.back() != "\n") { d.endDoc(); L.ev(J("dend")); } stat(L, d); L.about("Df::term"); term(L, d, R.below(3), R.below(17)); term(L, d, 0, 16); if (R.chance(1, 2)) term(L, d, R.below(5), R.range(8, 16)); t.endDoc(); L.ev(J("tend")); final(L, t, keys); L.end(); }
S word(const SV& vocab) { S w = R.chance(9, 10) ? vocab[R.below(vocab.size())] : ""; if (w.empty()) { int n = R.below(5); while (n--) w += R.chance(1, 6) ? (char)R.range(0x80, 0xff) : "abcABCzZ@[`{019_\x7f"[R.below(17)]; return w; } for (size_t i = 0; i < w.size(); i++) if (R.chance(1, 6) && w[i] >= 'a' && w[i] <= 'z') w[i] = (char)(w[i] - 32); return w; }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 60); keyPath = S(a.out) + ".key"; if (!freopen("/dev/null", "w", stderr)) return 2;
	std::vector<std::vector<int> > sc = loadScript(a.script); static const char *W[] = { "\n", "a", "A", "bC", "bc", "d" }; Lines kl; kl.push_back(Line("bc", true)); kl.push_back(Line("a", true));
	for (size_t i = 0; i < sc.size(); i++) { if (!a.mine(i)) continue; SV o; for (size_t j = 0; j < sc[i].size(); j++) o.push_back(W[sc[i][j]]); session(L, kl, o); }
	for (int n = 0; n < 60 * a.effort; n++) { SV vocab; int k = 1 + R.below(14); while (k--) { S w; int m = 1 + R.below(4); while (m--) w += R.chance(1, 10) ? (char)R.range(0x80, 0xff) : "abcz@[`{9"[R.below(9)]; vocab.push_back(w); } Lines ls; k = R.below(10); while (k--) { bool tab = !R.chance(1, 12); S w = R.chance(4, 5) ? vocab[R.below(vocab.size())] : word(vocab); if (R.chance(1, 20)) w = ""; ls.push_back(Line(w, tab)); } SV o; k = R.below(120); int p = 2 + R.below(10); while (k--) o.push_back(R.chance(1, p) ? S("\n") : word(vocab)); session(L, ls, o); }
	for (int n = 0; n < (a.effort > 2 ? a.effort / 2 : 1); n++) { SV vocab, o; Lines ls; int docs = R.chance(1, 2) ? R.range(20, 80) : R.range(120, 300); for (int k = 0; k < 9; k++) { vocab.push_back(S(1, (char)('a' + k))); if (k & 1) ls.push_back(Line(vocab.back(), true)); } std::vector<int> f; for (int k = 0; k < 9; k++) f.push_back(R.below(docs) + 1); for (int i = 0; i < docs; i++) { for (int k = 0; k < 9; k++) if (i < f[k]) o.push_back(vocab[k]); o.push_back("\n"); } session(L, ls, o); } // many documents
	unlink(keyPath.c_str()); return 0; }
