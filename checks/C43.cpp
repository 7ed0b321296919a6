// C43: files and directories through the file system interface, against a model and the real tree.
#include "common.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <set>
namespace vu = vmime::utility;
typedef std::vector<std::string> comps;
struct node { bool dir; std::string data; int mode; };
typedef std::map<std::string, node> tree; // by path relative to the root ("/a/b"); "" is the root
static void wipe(const std::string& d) { DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; std::string f = d + "/" + n; if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(f); else unlink(f.c_str()); } closedir(h); rmdir(d.c_str()); }
static std::string slurp(const std::string& f) { std::string r; FILE* h = fopen(f.c_str(), "rb"); if (!h) return "(cannot be opened)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) r.append(b, n); fclose(h); return r; }
static void scan(const std::string& d, const std::string& rel, tree& t) { struct stat st; if (stat(d.c_str(), &st)) return; node n; n.dir = S_ISDIR(st.st_mode); n.mode = 0; if (!n.dir) n.data = slurp(d); t[rel] = n; if (!n.dir) return; DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) { std::string k = e->d_name; if (k != "." && k != "..") scan(d + "/" + k, rel + "/" + k, t); } closedir(h); }
static std::string show(const tree& t) { std::string r; for (auto& e : t) r += "\n  " + pbt::esc(e.first) + (e.second.dir ? "/" : " = " + pbt::esc(e.second.data.substr(0, 60)) + "(" + std::to_string(e.second.data.size()) + ")"); return r; }
static std::string up(const std::string& p) { return p.substr(0, p.rfind('/')); }
static bool under(const std::string& p, const std::string& d) { return p.size() > d.size() && p.compare(0, d.size(), d) == 0 && p[d.size()] == '/'; }
static std::string genPath(Source& s, const tree& t) {
	static const char* const N[] = { "vfa", "vfb", "vf c", "vf.d", ".vfe", "vf\xc3\xa9", "vf%2C\\", ".z", "..v" }; std::string p; if (s.draw(3)) { auto it = t.begin(); std::advance(it, (long) s.draw(t.size() - 1)); p = it->first; if (p.empty() || s.oneIn(3)) p += "/" + std::string(N[s.draw(8)]); } else { unsigned n = 1 + (unsigned) s.weighted({ 4, 4, 2 }); for (unsigned i = 0 ; i < n ; ++i) p += "/" + std::string(N[s.draw(8)]); } return p;
}
static void run(Source& s, Ctx& c) {
	static unsigned serial = 0; std::string base = pbt::scratchDir() + "/fs" + std::to_string(getpid()) + "-" + std::to_string(++serial), root = base + "/root"; mkdir(base.c_str(), 0755); mkdir(root.c_str(), 0700); if (chown(root.c_str(), 65534, 65534)) { }
	struct Guard { std::string d; ~Guard() { if (setresuid(0, 0, 0)) { } wipe(d); } } guard { base }; if (setresuid(65534, 65534, 0)) c.label("not unprivileged"); // what goes wrong can change nothing outside the scratch directory
	auto F = vmime::platform::getHandler()->getFileSystemFactory(); vu::file::path rp = F->stringToPath(root); CHECK_EQ(F->pathToString(rp), root, "path of the root"); tree T; T[""] = node{ true, "", 0 }; unsigned changes = 0, refused = 0;
	auto P = [&](const std::string& rel) { vu::file::path p = rp; size_t i = 0; while (i < rel.size()) { size_t j = rel.find('/', i + 1); if (j == rel.npos) j = rel.size(); p /= vu::file::path::component(rel.substr(i + 1, j - i - 1)); i = j; } return p; };
	auto parentOk = [&](const std::string& p) { auto it = T.find(up(p)); return it != T.end() && it->second.dir; };
	auto throughFile = [&](const std::string& p) { for (std::string q = up(p) ; !q.empty() ; q = up(q)) { auto it = T.find(q); if (it != T.end()) return !it->second.dir; } return false; };
	for (unsigned op = 0 ; op < 25 && s.more(14) ; ++op) {
		std::string p = genPath(s, T); auto f = F->create(P(p)); bool have = T.count(p) != 0, isDir = have && T[p].dir, thr = false, wantThr = false; std::string what; tree N = T; vmime::string err;
		auto guarded = [&](const std::function<void()>& k) { try { k(); } catch (vmime::exceptions::filesystem_exception& e) { thr = true; err = e.what(); } };
		switch (s.weighted({ 4, 3, 3, 2, 4, 2, 1 })) {
		case 0: what = "create file " + p; wantThr = have || !parentOk(p); if (!wantThr) N[p] = node{ false, "", 0 }; guarded([&] { f->createFile(); }); break;
		case 1: { bool all = s.coin(); what = std::string("create director") + (all ? "ies " : "y ") + p; if (isDir) ; else if (have || throughFile(p) || (!all && !parentOk(p))) wantThr = true; else for (std::string q = p ; !N.count(q) ; q = up(q)) N[q] = node{ true, "", 0 }; guarded([&] { f->createDirectory(all); }); break; }
		case 2: {
			std::string q = s.oneIn(6) ? p + "/vfx" : genPath(s, T); what = "rename " + p + " to " + q; if (!have) wantThr = true; else if (!parentOk(q)) { wantThr = true; if (isDir && p == q) wantThr = false; } else if (!isDir) wantThr = T.count(q) != 0; else if (q == p) ; else if (under(q, p)) wantThr = true; else if (T.count(q)) { wantThr = !T[q].dir; for (auto& e : T) if (under(e.first, q)) wantThr = true; }
			if (!wantThr && p != q) { c.label(isDir ? "directory renamed" : "file renamed"); std::vector<std::string> mv; for (auto& e : T) if (e.first == p || under(e.first, p)) mv.push_back(e.first); for (auto& m : mv) N.erase(m); for (auto& m : mv) N[q + m.substr(p.size())] = T[m]; }
			guarded([&] { f->rename(P(q)); }); if (!thr) { CHECK_EQ(F->pathToString(f->getFullPath()), root + q, "path after rename"); CHECK_EQ((int) f->isDirectory(), (int) isDir, "the renamed one is a directory"); CHECK_EQ((int) f->isFile(), (int) !isDir, "the renamed one is a file"); if (!isDir) { CHECK_EQ((size_t) f->getLength(), T[p].data.size(), "length after rename"); if (s.coin()) { strOut os; vu::bufferedStreamCopy(*f->getFileReader()->getInputStream(), os); CHECK_EQ(pbt::esc(os.s), pbt::esc(T[p].data), "contents after rename"); } } if (s.oneIn(4)) { guarded([&] { f->remove(); }); bool sub = false; for (auto& e : N) if (under(e.first, q)) sub = true; CHECK_EQ((int) thr, (int) sub, "removed after rename"); if (!thr) N.erase(q); thr = false; } } else CHECK_EQ(F->pathToString(f->getFullPath()), root + p, "path after a rename which failed"); break; }
		case 3: what = "remove " + p; wantThr = !have; if (isDir) for (auto& e : T) if (under(e.first, p)) wantThr = true; if (!wantThr) N.erase(p); guarded([&] { f->remove(); }); break;
		case 4: {
			if (!have || isDir || !T[p].data.empty()) break; std::string d = s.oneIn(4) ? s.bulk(s.size(9000)) : s.bytes(s.size(60)); what = "write " + std::to_string(d.size()) + " bytes to " + p; N[p].data = d; guarded([&] { auto w = f->getFileWriter(); auto os = w->getOutputStream(); size_t k = 0; while (k < d.size()) { size_t n = s.coin() ? d.size() - k : std::min<size_t>(d.size() - k, 1 + s.draw(30)); os->write(d.data() + k, n); k += n; if (s.oneIn(4)) os->flush(); } }); c.label("written"); break; }
		case 5: {
			what = "read " + p; wantThr = !have; if (isDir) break; guarded([&] {
				auto r = f->getFileReader(); auto is = vmime::dynamicCast <vu::seekableInputStream>(r->getInputStream()); CHECK_MSG(is, "not a seekable stream"); const std::string& d = T[p].data; size_t pos = 0; c.label("read");
				for (unsigned k = 0 ; k < 12 && s.more(6) ; ++k) switch (s.draw(4)) {
				case 0: { size_t n = s.draw(d.size() + 5); CHECK_EQ(is->skip(n), std::min(n, d.size() - pos), "bytes skipped"); pos += std::min(n, d.size() - pos); break; }
				case 1: is->reset(); pos = 0; CHECK_EQ((int) is->eof(), 0, "end of file after reset"); break; case 2: pos = s.draw(d.size()); is->seek(pos); break;
				default: { size_t n = s.draw(s.coin() ? 20 : 3000); std::vector<vmime::byte_t> b(n + 1); size_t g = is->read(b.data(), n); CHECK_EQ(pbt::esc(std::string((const char*) b.data(), g)), pbt::esc(d.substr(pos, n)), "bytes read"); pos += g; if (n && g == 0) CHECK_EQ((int) is->eof(), 1, "end of file"); if (pos < d.size()) CHECK_EQ((int) is->eof(), 0, "end of file before the end"); } }
				CHECK_EQ(is->getPosition(), pos, "position"); }); if (!have && thr) T.erase(p); break; }
		default: if (!have || isDir) break; { int m = s.coin() ? 0 : s.coin() ? 0400 : 0600; what = "mode " + std::to_string(m) + " of " + p; std::string n = root + p; if (geteuid() == 0) break; chmod(n.c_str(), (mode_t) m); CHECK_EQ((int) f->canRead(), (int) ((m & 0400) != 0), "canRead()"); CHECK_EQ((int) f->canWrite(), (int) ((m & 0200) != 0), "canWrite()"); if (!(m & 0400)) { guarded([&] { f->getFileReader()->getInputStream(); }); CHECK_MSG(thr, "a file which cannot be read is opened"); thr = false; c.label("unreadable"); } chmod(n.c_str(), 0600); } }
		if (what.empty()) continue; NOTE(c, what << (thr ? ": " + err : "")); c.mix(what); CHECK_MSG(thr == wantThr, what << ": " << (thr ? "refused, " + err : "accepted") << show(T)); if (thr) ++refused; else ++changes; T = N; tree R; scan(root, "", R); CHECK_EQ(show(R), show(T), "files and directories after: " + what);
		// queries
		std::string q = genPath(s, T); auto g = F->create(P(q)); bool hq = T.count(q) != 0, dq = hq && T[q].dir; CHECK_EQ((int) g->exists(), (int) hq, "exists(): " + q); CHECK_EQ(F->pathToString(g->getFullPath()), root + q, "full path"); CHECK_EQ(F->pathToString(g->getParent()->getFullPath()), root + up(q), "parent");
		if (!throughFile(q)) { CHECK_EQ((int) g->isFile(), (int) (hq && !dq), "isFile(): " + q); CHECK_EQ((int) g->isDirectory(), (int) dq, "isDirectory(): " + q); CHECK_EQ((int) g->canRead(), (int) (hq && !dq), "canRead(): " + q); CHECK_EQ((int) g->canWrite(), (int) (hq && !dq), "canWrite(): " + q); }
		if (hq && !dq) CHECK_EQ((size_t) g->getLength(), T[q].data.size(), "length of " + q); if (!hq) { try { g->getLength(); FAIL("length of what does not exist"); } catch (vmime::exceptions::filesystem_exception&) {} }
		if (dq) { std::set<std::string> got, want; for (auto& e : T) if (under(e.first, q) && up(e.first) == q) want.insert(e.first); unsigned n = 0; auto it = g->getFiles(); while (it->hasMoreElements()) { auto e = it->nextElement(); ++n; got.insert(F->pathToString(e->getFullPath()).substr(root.size())); } CHECK_EQ(n, (unsigned) want.size(), "entries of " + q); CHECK_MSG(got == want, "entries of " << q); c.label("listed"); }
		else if (!throughFile(q)) { try { g->getFiles(); FAIL("files of what is not a directory"); } catch (vmime::exceptions::not_a_directory&) {} catch (vmime::exceptions::filesystem_exception&) {} }
	}
	c.nontrivial(changes > 2); if (refused) c.label("refused");
}
Property makeProperty() {
	Property p; p.id = "C43"; p.run = run; p.init = installPlatform; p.quick = 40000; p.thorough = 1500000;
	p.rule = "up to 25 steps in a scratch directory, as an unprivileged user: files and directories (with or without their parents) created, renamed (over others, into themselves), removed, written in pieces, read with skips and seeks, made unreadable; the real tree is compared with a model after every step, then one path is queried or listed; non-trivial: more than two changes";
	p.assumptions = { "files are written once", "questions about a path below a file may be refused" };
	return p;
}
