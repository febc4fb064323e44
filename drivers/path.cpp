// P23: file names, directory listings, program path
#include <string.h>
#include <algorithm>
#include <set>
#include <cybozu/file.hpp>
#include "verif.hpp"
using namespace verif;
typedef std::string S;
static Rng *gR;
#define R (*gR)
void names(Log& L, const S& n) {
	L.about("names"); S suf = "old", b1 = cybozu::GetBaseName(n), b = cybozu::GetBaseName(n, &suf); L.ev(J("split").bytes("n", n).bytes("base", b).bytes("suf", suf).bytes("base1", b1));
	for (int i = 0; i < 3; i++) { S x; int k = R.below(4); if (k == 0) x = suf; else if (k == 1 && !n.empty()) x = n.substr(R.below(n.size())); else if (k == 2) { x = suf; if (!x.empty()) x[R.below(x.size())] ^= 1; } else x = R.chance(1, 3) ? n + "a" : R.chance(1, 2) ? "" : "." + suf; S m = n; bool r = cybozu::HasExtension(m, x); L.ev(J("has").bytes("n", n).bytes("x", x).b("r", r)); }
	S m = n; cybozu::ReplaceBackSlash(m); L.ev(J("slash").bytes("n", n).bytes("r", m));
}
S rname(bool dots = true) { static const char *p[] = { "a", "b", ".", "..", "cpp", "hpp", ".cpp", "x.cpp", "-", "_", "\xe3\x81\x82", " " }; if (R.chance(1, 12)) return S(1 + R.below(5), '.'); S s; int n = 1 + R.below(4); while (n--) s += p[R.below(12)]; (void)dots; return s; }
int kindOf(uint32_t attr) { cybozu::FileInfo fi("x", attr); if (fi.isUnknown()) return 9; return fi.isDirectory() ? (fi.isFile() ? 8 : 2) : fi.isFile() ? 1 : attr == DT_LNK ? 3 : 7; }
S jlst(const cybozu::FileList& l) { std::vector<S> v; for (size_t i = 0; i < l.size(); i++) v.push_back(J().bytes("n", l[i].name).n("k", kindOf(l[i].attr)).end()); return jlist(v); }
bool anyCond(const S& n, const S& x) { return cybozu::HasExtension(n, x); }
void dirs(Log& L) {
	L.start(); if (mkdir("d", 0755) || chdir("d")) { L.end(); return; } std::set<S> have; int len = R.below(14);
	while (len-- >= 0) {
		if (R.chance(2, 3)) { S n = rname(); if (n == "." || n == ".." || n.find("/") != S::npos || have.count(n)) continue; int k = 1 + R.below(3); bool ok = k == 1 ? ({ FILE *fp = fopen(n.c_str(), "wb"); if (fp) fclose(fp); fp != 0; }) : k == 2 ? mkdir(n.c_str(), 0755) == 0 : symlink("nowhere", n.c_str()) == 0; if (!ok) continue; have.insert(n); L.ev(J("mk").bytes("n", n).n("k", k)); }
		else if (!have.empty() && R.chance(1, 2)) { std::set<S>::iterator i = have.begin(); std::advance(i, R.below(have.size())); if (remove(i->c_str())) continue; L.ev(J("rm").bytes("n", *i)); have.erase(i); }
		static const char *xs[] = { "", "cpp", "hpp", "a", "x.cpp", "cpp.hpp" }; S x = xs[R.below(6)]; cybozu::FileList l, before; bool there = !R.chance(1, 8), ok = true; if (R.chance(1, 3)) before.push_back(cybozu::FileInfo("old", DT_REG)); S dir = there ? (R.chance(1, 2) ? "." : "../d") : "missing"; L.about("GetFileList");
		if (R.chance(1, 2)) { l = before; ok = x.empty() && R.chance(1, 2) ? cybozu::GetFileList(l, dir) : cybozu::GetFileList(l, dir, x); } else { before.clear(); try { l = R.chance(1, 2) ? cybozu::GetFileList(dir, x) : cybozu::GetFileList(dir, x, anyCond); } catch (std::exception&) { ok = false; } }
		L.ev(J("list").bytes("x", x).b("there", there).b("ok", ok).raw("before", jlst(before)).raw("l", jlst(l)));
		S p = R.chance(1, 8) ? "/" : R.chance(1, 8) ? "." : have.empty() || R.chance(1, 3) ? rname() : *have.begin(); if (p == "..") p = "zz"; if (p != "/" && R.chance(1, 3)) p += "/"; if (p != "../") L.ev(J("exist").bytes("p", p).b("r", cybozu::DoesFileExist(p)));
	}
	for (std::set<S>::iterator i = have.begin(); i != have.end(); ++i) remove(i->c_str()); if (chdir("..")) {} rmdir("d"); L.end();
}
void exe(Log& L, const char *self) { // run copies of this program under other names
	static const char *nm[] = { "prog", "prog.exe", "a.b.exe", ".exe", "exe", "x.exe.y", "p.EXE" }; L.start();
	for (int i = 0; i < 7; i++) { if (mkdir("e.d", 0755)) break; S p = S("e.d/") + nm[i]; if (link(self, p.c_str()) && symlink(self, p.c_str())) { rmdir("e.d"); break; } FILE *fp = popen((p + " --exe").c_str(), "r"); char b[3][4200] = { "", "", "" }; int k = 0; while (k < 3 && fgets(b[k], sizeof(b[0]), fp)) { b[k][strlen(b[k]) - 1] = 0; k++; } pclose(fp); if (k == 3) { char rp[4200]; (void)rp; L.ev(J("exe").bytes("p", b[0]).bytes("dir", b[1]).bytes("base", b[2])); } unlink(p.c_str()); rmdir("e.d"); }
	L.end();
}
int main(int argc, char **argv) {
	if (argc == 2 && !strcmp(argv[1], "--exe")) { char rp[4200]; ssize_t n = readlink("/proc/self/exe", rp, sizeof(rp) - 1); rp[n > 0 ? n : 0] = 0; S b, d = cybozu::GetExePath(&b), d2 = cybozu::GetExePath(); printf("%s\n%s\n%s\n", rp, d == d2 ? d.c_str() : "differs", b.c_str()); return 0; }
	char self[4200]; ssize_t n = readlink("/proc/self/exe", self, sizeof(self) - 1); self[n > 0 ? n : 0] = 0;
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out); { char d[32]; snprintf(d, sizeof(d), "s%d", (int)getpid()); if (mkdir(d, 0755) || chdir(d)) return 2; } if (!freopen("/dev/null", "w", stderr)) return 2;
	std::vector<std::vector<int> > sc = loadScript(a.script); int k = 0;
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { if (k % 8 == 0) L.start(); names(L, S(sc[i].begin(), sc[i].end())); if (k++ % 8 == 7) L.end(); } if (k % 8) L.end();
	for (int i = 0; i < 60 * a.effort; i++) { L.start(); for (int j = 0; j < 5; j++) { S s = rname(); if (R.chance(1, 2)) s += "/" + rname(); if (R.chance(1, 3)) s += "\\" + rname(); names(L, s); } L.end(); }
	for (int i = 0; i < 60 * a.effort; i++) dirs(L);
	if (a.shard == 0) exe(L, self);
	return 0;
}
