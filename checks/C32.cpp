// C32: maildir stores against a model: folders, messages and flags on disk are those of the model in both layouts, and nothing outside the root is touched.
#include "common.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/folder.hpp"
#include "vmime/net/folderStatus.hpp"
#include "vmime/net/folderAttributes.hpp"
#include "vmime/net/message.hpp"
#include "vmime/net/messageSet.hpp"
#include "vmime/net/fetchAttributes.hpp"
#include "vmime/net/events.hpp"
#include "vmime/platforms/posix/posixFile.hpp"
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using vmime::net::messageSet; using vmime::net::fetchAttributes; typedef vmime::net::folder netFolder; typedef vmime::net::message netMessage; using vmime::shared_ptr; using vmime::make_shared;
typedef vmime::utility::file ufile;

// ---- a file system which lets nothing outside the store's root happen, and can fail
static std::string g_root; static std::string g_escape; static long g_failIn = -1; static bool g_failed;
static bool inside(const std::string& native) {
	std::string n(native.c_str()); std::vector<std::string> st; size_t p = 0;
	while (p <= n.size()) { size_t e = n.find('/', p); std::string x = n.substr(p, e == std::string::npos ? std::string::npos : e - p); if (x == "..") { if (st.empty()) return false; st.pop_back(); } else if (!x.empty() && x != ".") st.push_back(x); if (e == std::string::npos) break; p = e + 1; }
	std::string r; for (auto& x : st) r += "/" + x; return r == g_root || r.compare(0, g_root.size() + 1, g_root + "/") == 0; }
static void mayFail(const ufile::path& p) { if (p.getSize() > 1 && p[p.getSize() - 2].getBuffer() == "tmp") if (g_failIn >= 0 && g_failIn-- == 0) { g_failed = true; throw vmime::exceptions::filesystem_exception("injected failure", p); } }
struct guardOut : vmime::utility::outputStream { shared_ptr<vmime::utility::outputStream> o; ufile::path p; void flush() { mayFail(p); o->flush(); } void writeImpl(const byte_t* const d, const size_t n) { mayFail(p); o->write(d, n); } };
struct guardWriter : vmime::utility::fileWriter { shared_ptr<vmime::utility::fileWriter> w; ufile::path p; shared_ptr<vmime::utility::outputStream> getOutputStream() { auto r = make_shared<guardOut>(); r->o = w->getOutputStream(); r->p = p; return r; } };
struct guardFile;
struct guardIter : vmime::utility::fileIterator { shared_ptr<vmime::utility::fileIterator> i; bool hasMoreElements() const { return i->hasMoreElements(); } shared_ptr<ufile> nextElement(); };
struct guardFile : ufile {
	shared_ptr<ufile> f; guardFile(const shared_ptr<ufile>& x) : f(x) { }
	void at(const char* op, const path& p) const { std::string n = vmime::platforms::posix::posixFileSystemFactory().pathToString(p); if (!inside(n)) { if (g_escape.empty()) g_escape = std::string(op) + " " + pbt::show(n); throw vmime::exceptions::filesystem_exception("outside the root", p); } }
	void at(const char* op) const { at(op, f->getFullPath()); }
	void createFile() { at("createFile"); mayFail(getFullPath()); f->createFile(); }
	void createDirectory(const bool a) { at("createDirectory"); f->createDirectory(a); }
	bool isFile() const { at("isFile"); return f->isFile(); }
	bool isDirectory() const { at("isDirectory"); return f->isDirectory(); }
	bool canRead() const { at("canRead"); return f->canRead(); }
	bool canWrite() const { at("canWrite"); return f->canWrite(); }
	length_type getLength() { at("getLength"); return f->getLength(); }
	const path& getFullPath() const { return f->getFullPath(); }
	bool exists() const { at("exists"); return f->exists(); }
	shared_ptr<ufile> getParent() const { auto p = f->getParent(); if (!p) return vmime::null; return make_shared<guardFile>(p); }
	void rename(const path& n) { at("rename"); at("rename to", n); mayFail(getFullPath()); f->rename(n); }
	void remove() { at("remove"); f->remove(); }
	shared_ptr<vmime::utility::fileWriter> getFileWriter() { at("getFileWriter"); auto w = make_shared<guardWriter>(); w->w = f->getFileWriter(); w->p = getFullPath(); return w; }
	shared_ptr<vmime::utility::fileReader> getFileReader() { at("getFileReader"); return f->getFileReader(); }
	shared_ptr<vmime::utility::fileIterator> getFiles() const { at("getFiles"); auto i = make_shared<guardIter>(); i->i = f->getFiles(); return i; }
};
shared_ptr<ufile> guardIter::nextElement() { return make_shared<guardFile>(i->nextElement()); }
struct guardFactory : vmime::platforms::posix::posixFileSystemFactory { shared_ptr<ufile> create(const ufile::path& p) const { return make_shared<guardFile>(posixFileSystemFactory::create(p)); } };
struct guardHandler : detHandler { shared_ptr<vmime::utility::fileSystemFactory> getFileSystemFactory() { return make_shared<guardFactory>(); } };

// ---- the model
typedef std::vector<std::string> P;
struct Msg { std::string content; int flags = 0; bool isNew = false; std::string id; };
typedef std::shared_ptr<Msg> M;
struct Folder { std::vector<M> msgs; bool link = false; };
enum { SEEN = netMessage::FLAG_SEEN, DELETED = netMessage::FLAG_DELETED, RECENT = netMessage::FLAG_RECENT, ALL = 0x7f & ~RECENT };
static std::string showP(const P& p) { std::string r; for (auto& x : p) r += "/" + pbt::esc(x); return r.empty() ? "/" : r; }
static std::string mutf7(const std::string& s) { // RFC 3501 section 5.1.3, with '.' and '/' encoded too
	std::vector<uint32_t> cp; getUtf8(s, cp); std::string r, run; auto flush = [&]() { if (run.empty()) return; std::string b = refB64(run); while (!b.empty() && b.back() == '=') b.pop_back(); for (auto& ch : b) if (ch == '/') ch = ','; r += "&" + b + "-"; run.clear(); };
	auto unit = [&](uint32_t u) { run += (char) (u >> 8); run += (char) (u & 255); };
	for (uint32_t x : cp) { if (x >= 0x20 && x <= 0x7e && x != '.' && x != '/') { flush(); r += (char) x; if (x == '&') r += '-'; } else if (x > 0xffff) { unit(0xd800 + ((x - 0x10000) >> 10)); unit(0xdc00 + ((x - 0x10000) & 0x3ff)); } else unit(x); }
	flush(); return r; }
struct World {
	bool courier; std::string base, root; std::map<P, Folder> t; std::set<std::string> noise;
	std::string rel(const P& p) const { std::string r; if (courier) { for (auto& x : p) r += "." + mutf7(x); return r; } for (size_t i = 0 ; i < p.size() ; ++i) r += i + 1 < p.size() ? "." + p[i] + ".directory/" : p[i]; return r; }
	std::string cont(const P& p) const { std::string r; for (auto& x : p) r += (r.empty() ? "." : "/.") + x + ".directory"; return r; }
	bool has(const P& p) const { return t.count(p); }
	bool isFolder(const P& p) const { return p.empty() ? courier : has(p); }   // holds messages
};
static void mkd(const std::string& d) { CHECK_MSG(mkdir(d.c_str(), 0755) == 0, "harness: mkdir " << d); }
static void put(const std::string& f, const std::string& x) { std::ofstream o(f, std::ios::binary); o << x; CHECK_MSG(o.good(), "harness: write " << f); }
static std::string get(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void walk(const std::string& d, const std::string& pre, std::map<std::string, char>& r) {
	DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; if (lstat((d + "/" + n).c_str(), &st) != 0) continue; char k = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f'; r[pre + n] = k; if (k == 'd') walk(d + "/" + n, pre + n + "/", r); } closedir(h); }
static void wipe(const std::string& d) { DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; std::string f = d + "/" + n; if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(f); else unlink(f.c_str()); } closedir(h); rmdir(d.c_str()); }
static bool splitName(const std::string& n, std::string& id, int& fl) {
	size_t p = n.rfind(':'); if (p == std::string::npos) { p = n.rfind("-2,"); if (p == std::string::npos) { id = n; fl = 0; return true; } } id = n.substr(0, p); std::string x = n.substr(p + 1); fl = 0; if (x.compare(0, 2, "2,") != 0) return false;
	std::string prev; for (char ch : x.substr(2)) { size_t i = std::string("FPRSTD").find(ch); if (i == std::string::npos) return false; static const int f[] = { netMessage::FLAG_MARKED, netMessage::FLAG_PASSED, netMessage::FLAG_REPLIED, SEEN, DELETED, netMessage::FLAG_DRAFT }; fl |= f[i]; } return true; }
static std::string flagLetters(int f) { std::string r; if (f & netMessage::FLAG_DRAFT) r += "D"; if (f & netMessage::FLAG_MARKED) r += "F"; if (f & netMessage::FLAG_PASSED) r += "P"; if (f & netMessage::FLAG_REPLIED) r += "R"; if (f & SEEN) r += "S"; if (f & DELETED) r += "T"; return r; }
static void verify(World& w, const std::string& what) {
	CHECK_MSG(g_escape.empty(), what << ": outside the root: " << g_escape);
	std::map<std::string, char> o; walk(w.base + "/outside", "", o); CHECK_MSG(o.size() == 6 && o.count("victim/cur/keep") && o.count("victim/new") && o.count("victim/tmp") && o.count("sentinel") && get(w.base + "/outside/sentinel") == "keep", what << ": files outside the root changed");
	std::map<std::string, char> b; { DIR* h = opendir(w.base.c_str()); while (dirent* e = readdir(h)) b[e->d_name] = 'x'; closedir(h); } CHECK_MSG(b.size() == 4, what << ": something was created or removed beside the root");
	std::map<std::string, char> d; walk(w.root, "", d); auto take = [&](const std::string& x, char k, const std::string& why) { auto i = d.find(x); CHECK_MSG(i != d.end() && i->second == k, what << ": " << why << " is missing: " << pbt::show(x)); d.erase(i); };
	for (auto& n : w.noise) take(n, n.back() == '~' ? 'f' : 'd', "an unrelated file");
	for (auto& e : w.t) {
		if (e.first.empty() && !w.courier) continue; std::string r = w.rel(e.first), pre = r.empty() ? "" : r + "/"; if (!r.empty()) take(r, 'd', "the directory of folder " + showP(e.first)); if (w.courier && !r.empty()) take(pre + "maildirfolder", 'f', "maildirfolder"); if (e.second.link) take(pre + "link", 'l', "a link");
		for (const char* x : { "cur", "new", "tmp" }) take(pre + x, 'd', std::string("directory of folder ") + showP(e.first));
		if (!w.courier) d.erase(w.cont(e.first));
		struct F { std::string name, id; int fl; bool isNew; }; std::vector<F> fs;
		for (const char* x : { "cur/", "new/" }) for (auto i = d.lower_bound(pre + x) ; i != d.end() && i->first.compare(0, pre.size() + 4, pre + x) == 0 ; ) { F f; f.name = i->first; f.isNew = x[0] == 'n'; CHECK_MSG(i->second == 'f', what << ": not a file: " << pbt::show(i->first)); CHECK_MSG(splitName(f.name.substr(pre.size() + 4), f.id, f.fl), what << ": malformed message file name " << pbt::show(f.name)); fs.push_back(f); i = d.erase(i); }
		auto match = [&](M m, bool bound) { for (auto i = fs.begin() ; i != fs.end() ; ++i) { if (bound ? i->id != m->id : (i->isNew && !m->isNew) || (!i->isNew && i->fl != m->flags)) continue; std::string x = get(w.root + "/" + i->name); if (x != m->content) { CHECK_MSG(!bound, what << ": content of " << pbt::show(i->name) << " changed: " << pbt::show(x) << " instead of " << pbt::show(m->content)); continue; } if (bound) { CHECK_MSG(!i->isNew || m->isNew, what << ": a message went back to new/"); CHECK_MSG(i->isNew || i->fl == m->flags, what << ": flags of " << pbt::show(i->name) << " instead of " << flagLetters(m->flags)); } m->id = i->id; if (!i->isNew) m->isNew = false; fs.erase(i); return true; } return false; };
		for (auto& m : e.second.msgs) if (!m->id.empty()) CHECK_MSG(match(m, true), what << ": message " << m->id << " of folder " << showP(e.first) << " is lost");
		for (auto& m : e.second.msgs) if (m->id.empty()) CHECK_MSG(match(m, false), what << ": no file in folder " << showP(e.first) << " with flags '" << flagLetters(m->flags) << (m->isNew ? "' (new)" : "'") << " and content " << pbt::show(m->content));
		CHECK_MSG(fs.empty(), what << ": unexpected message file " << pbt::show(fs[0].name));
	}
	CHECK_MSG(d.empty(), what << ": unexpected file or directory " << pbt::show(d.begin()->first));
}

// ---- listeners
static P fromPath(const netFolder::path& p) { P r; for (size_t i = 0 ; i < p.getSize() ; ++i) r.push_back(p[i].getBuffer()); return r; }
struct cntListener : vmime::net::events::messageCountListener { size_t n = 0; std::string bad; void messagesAdded(const shared_ptr<vmime::net::events::messageCountEvent>& e) { for (size_t x : e->getNumbers()) { if (x != n + 1 && bad.empty()) bad = "message " + std::to_string(x) + " added to " + std::to_string(n); ++n; } } void messagesRemoved(const shared_ptr<vmime::net::events::messageCountEvent>& e) { size_t last = 0; for (size_t x : e->getNumbers()) { if ((x < 1 || x > n || x <= last) && bad.empty()) bad = "message " + std::to_string(x) + " removed of " + std::to_string(n); last = x; } n -= e->getNumbers().size(); } };
struct renListener : vmime::net::events::folderListener { std::vector<P> ev; void folderCreated(const shared_ptr<vmime::net::events::folderEvent>&) { } void folderDeleted(const shared_ptr<vmime::net::events::folderEvent>&) { } void folderRenamed(const shared_ptr<vmime::net::events::folderEvent>& e) { ev.push_back(fromPath(e->getFolder()->getFullPath())); } };

static std::string goodName(Source& s) {
	switch (s.weighted({ 8, 6, 2, 1 })) {
	case 0: return s.pick({ "a", "b", "ab", "c", "inbox" });
	case 1: return s.pick({ "A", "a.b", "x y", "d\xc3\xa9j\xc3\xa0", "\xe6\x97\xa5\xe6\x9c\xac", "&", "a&b", "+", "a+b", "-", "&-", "a-", "\xc3\xa9-", "\xc3\xa9""a", "cur", "new", "tmp", "maildirfolder", "x.directory", "~", "\xf0\x9f\x93\xa7", "=", ",", "\xc3\xa9,", "a\\b", "\"q\"", "\xc3\xa9.\xc3\xa9", "&AOk-", "a:b", "\xc3\xa9&\xc3\xa9", "a..b", "+AOk-" });
	case 2: { std::string r; unsigned n = 1 + (unsigned) s.draw(5); for (unsigned i = 0 ; i < n ; ++i) { uint32_t x = genCodepoint(s); if (x == '/' || x == '*' || (i == 0 && x == '.') || x <= 0x20) x = 'q'; putUtf8(r, x); } return r; }
	default: return std::string((size_t) s.pickInt({ 60, 200, 243, 244, 245, 254, 255, 256, 400 }), 'n'); } }
static std::string badName(Source& s) { switch (s.draw(18)) { case 0: return ".."; case 1: return "."; case 2: return ""; case 3: return "../outside"; case 4: return "../outside/victim"; case 5: return "a/b"; case 6: return "/"; case 7: return ".hidden"; case 8: return std::string("..\0x", 4); case 9: return std::string("a\0b", 3); case 10: return std::string("\0", 1); case 11: return "../../outside"; case 12: return " lead"; case 13: return "trail "; case 14: return "*"; case 15: return "x/../../outside/victim"; case 16: return "..a"; case 17: return "/../../outside/z"; default: return "\t"; } }
static bool invalidName(const std::string& n) { return n.empty() || n.find_first_of(std::string("/*\0", 3)) != std::string::npos || n[0] == '.' || trimWs(n) != n; }
static bool unsafeName(const World& w, const std::string& n) { return n.empty() || n.find('\0') != std::string::npos || (!w.courier && (n.find('/') != std::string::npos || n[0] == '.')); }
static netFolder::path toPath(const P& p) { netFolder::path r; for (auto& x : p) r.appendComponent(netFolder::path::component(x, vmime::charset("utf-8"))); return r; }
static bool under(const P& a, const P& b) { return b.size() >= a.size() && std::equal(a.begin(), a.end(), b.begin()); }   // b is a or below
static std::string genContent(Source& s, unsigned n) {
	std::string eol = s.draw(3) ? "\r\n" : "\n", r, id = "m" + std::to_string(n);
	switch (s.weighted({ 8, 3, 2, 2, 1 })) {
	case 0: return "Subject: " + id + eol + "X-A: " + s.str(8, "ab c") + eol + eol + s.str(12, "xy\n z") + id;
	case 1: { r = "Subject: " + id + eol + "MIME-Version: 1.0" + eol + "Content-Type: multipart/mixed; boundary=\"=_b\"" + eol + eol + "prolog" + eol; unsigned k = 1 + (unsigned) s.draw(3); for (unsigned i = 0 ; i < k ; ++i) { r += "--=_b" + eol; if (s.oneIn(4)) r += "Content-Type: multipart/alternative; boundary=q" + eol + eol + "--q" + eol + "Content-Type: text/plain" + eol + eol + "inner" + eol + "--q--" + eol; else r += "Content-Type: text/plain" + eol + "X-P: " + std::to_string(i) + eol + eol + s.str(10, "part \n") + eol; } return r + "--=_b--" + eol; }
	case 2: return s.str(20);
	case 3: { std::string x = std::string("\0\xff\r\n.\n", 6); r = "X-Id: " + id + eol + eol; unsigned k = (unsigned) s.draw(20); for (unsigned i = 0 ; i < k ; ++i) r += x[s.draw(5)]; return r; }
	default: { size_t k = s.sizeNear(140000, { 1024, 8192, 16384, 65536, 131072 }); r = "X-Id: " + id + eol + eol; return r + s.bulk(k > r.size() ? k - r.size() : 0, "abc\r\n"); } } }
static std::string extName(Source& s, unsigned n) { std::string u = std::to_string(1600000000 + n); return u + s.pick({ ".M12P34.host", ".M12P34.mail-host.example", ".V801I2.x-y", "_0.1-2.h", ".R-S", ".a-T", ".host,S=123", ".h-1,x" }); }

struct Open { shared_ptr<netFolder> f; P path; bool rw = false; std::vector<M> order; std::vector<std::pair<shared_ptr<netMessage>, M>> held; std::map<netMessage*, int> cached; shared_ptr<cntListener> cl; };

static void run(Source& s, Ctx& c) {
	static unsigned serial = 0; World w; w.courier = s.coin(); w.base = pbt::scratchDir() + "/" + std::to_string(getpid()) + "-" + std::to_string(++serial); w.root = w.base + "/root"; struct Cleaner { std::string d; ~Cleaner() { g_failIn = -1; wipe(d); } } cleaner { w.base };
	mkd(w.base); mkd(w.root); mkd(w.base + "/outside"); mkd(w.base + "/outside/victim"); for (const char* x : { "cur", "new", "tmp" }) mkd(w.base + "/outside/victim/" + x); put(w.base + "/outside/victim/cur/keep", "k"); put(w.base + "/outside/sentinel", "keep");
	g_root = w.root; g_escape.clear(); g_failIn = -1; g_failed = false; NOTE(c, (w.courier ? "courier" : "kmail") << " layout");
	unsigned mn = 0, seenOps = 0, added = 0, expunged = 0, renamed = 0, refused = 0; unsigned long& clk = detHandler::clock();
	auto mkFolder = [&](const P& p) { std::string d = w.root + (p.empty() ? "" : "/" + w.rel(p)); if (!w.courier && p.size() > 1) { P q = p; q.pop_back(); std::string x = w.root + "/" + w.cont(q); struct stat st; if (stat(x.c_str(), &st) != 0) mkd(x); } if (!p.empty()) mkd(d); for (const char* x : { "cur", "new", "tmp" }) mkd(d + "/" + x); if (w.courier && !p.empty()) put(d + "/maildirfolder", ""); w.t[p]; };
	auto extDeliver = [&](const P& p) { auto m = std::make_shared<Msg>(); m->content = genContent(s, ++mn); m->id = extName(s, mn); m->isNew = s.coin(); std::string n = m->id; if (!m->isNew) { m->flags = (int) s.draw(ALL) & ALL; switch (s.draw(3)) { case 0: n += "-2," + flagLetters(m->flags); break; case 1: m->flags = 0; break; default: n += ":2," + flagLetters(m->flags); } } put(w.root + "/" + w.rel(p) + (w.rel(p).empty() ? "" : "/") + (m->isNew ? "new/" : "cur/") + n, m->content); w.t[p].msgs.push_back(m); NOTE(c, "external delivery of " << pbt::show(n) << (m->isNew ? " to new/ of " : " to cur/ of ") << showP(p) << " " << pbt::show(m->content)); return m; };
	if (w.courier) { mkFolder(P()); mkFolder(P { "pin" }); }
	{ unsigned n = (unsigned) s.draw(4); for (unsigned i = 0 ; i < n ; ++i) { std::vector<P> ps { P() }; for (auto& e : w.t) if (!e.first.empty() && e.first[0] != "pin") ps.push_back(e.first); P p = s.pick(ps); std::string x = goodName(s); if (x.size() > 60 || p.size() > 2) continue; p.push_back(x); if (w.has(p)) continue; mkFolder(p); if (s.oneIn(6)) { CHECK(symlink("../../outside", (w.root + "/" + w.rel(p) + "/link").c_str()) == 0); w.t[p].link = true; } unsigned k = (unsigned) s.draw(3); for (unsigned j = 0 ; j < k ; ++j) extDeliver(p); } }
	if (s.oneIn(4)) { w.noise.insert("readme~"); put(w.root + "/readme~", "x"); if (w.courier) { w.noise.insert("courierimapkeywords"); mkd(w.root + "/courierimapkeywords"); } else { w.noise.insert(".hidden"); mkd(w.root + "/.hidden"); } }
	// The store
	vmime::shared_ptr<vmime::net::session> sess; shared_ptr<vmime::net::store> st; std::vector<Open> opens; std::vector<std::pair<shared_ptr<netFolder>, P>> handles; std::vector<std::pair<shared_ptr<netFolder>, std::vector<shared_ptr<netMessage>>>> stale;
	auto newStore = [&]() { vmime::propertySet props; props["store.protocol"] = "maildir"; props["store.maildir.server.rootpath"] = w.root + s.pick({ "", "", "/", "//" }); sess = vmime::net::session::create(props); st = sess->getStore(); st->connect(); };
	newStore(); verify(w, "connect");
	auto folders = [&](bool withRoot, bool withPin) { std::vector<P> r; for (auto& e : w.t) if (e.first.empty() ? withRoot : withPin || e.first[0] != "pin") r.push_back(e.first); return r; };
	auto anyPath = [&](bool& bad, bool parentExists) -> P { // a path: existing, new, or with unusable components
		bad = false; std::vector<P> ps = folders(true, true); if (!w.has(P())) ps.push_back(P()); unsigned k = (unsigned) s.weighted({ 6, 4, 2 }); P p = s.pick(ps); if (k == 0) return p; if (k == 1) { if (p.size() > 3) p.pop_back(); p.push_back(goodName(s)); if (!parentExists && s.oneIn(4)) p.push_back(goodName(s)); return p; }
		bad = true; size_t at = s.draw(p.size()); p.resize(at); p.push_back(badName(s)); unsigned m = (unsigned) s.draw(2); for (unsigned i = 0 ; i < m ; ++i) p.push_back(s.coin() ? badName(s) : s.pick({ "victim", "outside", "x", "cur" })); return p; };
	auto checkView = [&](Open& o, const char* what, bool complete) {
		size_t n = o.f->getMessageCount(); CHECK_MSG(n >= o.order.size(), what << ": folder " << showP(o.path) << " reports " << n << " messages, " << o.order.size() << " were known"); CHECK_MSG(!o.cl || o.cl->bad.empty(), what << ": notifications: " << o.cl->bad); 
		auto& ms = w.t[o.path].msgs;
		for (size_t i = o.order.size() ; i < n ; ++i) { auto m = o.f->getMessage(i + 1); o.f->fetchMessage(m, fetchAttributes(fetchAttributes::UID | fetchAttributes::FLAGS)); std::string uid = m->getUID(); M x; for (auto& y : ms) if (y->id == uid) x = y; CHECK_MSG(x, what << ": message " << i + 1 << " of " << showP(o.path) << " has the unknown uid " << pbt::show(uid)); CHECK_MSG(std::find(o.order.begin(), o.order.end(), x) == o.order.end(), what << ": message " << pbt::show(uid) << " is listed twice"); o.order.push_back(x); }
		if (complete) CHECK_MSG(o.order.size() == ms.size(), what << ": folder " << showP(o.path) << " reports " << o.order.size() << " of " << ms.size() << " messages");
		if (o.cl) { CHECK_MSG(o.cl->n == n, what << ": " << n << " messages, but " << o.cl->n << " according to the notifications"); } };
	auto forget = [&](size_t i) { Open o = opens[i]; if (o.cl) o.f->removeMessageCountListener(o.cl.get()); opens.erase(opens.begin() + (long) i); std::vector<shared_ptr<netMessage>> ms; for (auto& h : o.held) ms.push_back(h.first); stale.push_back({ o.f, ms }); };
	auto genSet = [&](Open& o, std::vector<size_t>& nums, bool& valid) { messageSet r = messageSet::empty(); unsigned k = 1 + (unsigned) s.draw(2); valid = true; size_t n = o.order.size(); for (unsigned i = 0 ; i < k ; ++i) { size_t a = 1 + s.draw(n ? n - 1 : 0), b = a; if (s.coin()) b = a + s.draw(n > a ? n - a : 0); if (s.oneIn(8)) b = (size_t) -1; if (s.oneIn(14)) { if (s.coin()) a = n + 1 + s.draw(3); else { a = 1; } b = a + (n ? n : 1) + s.draw(5); if (s.oneIn(3)) b = 4000000000ul; } r.addRange(vmime::net::numberMessageRange(a, b)); size_t e = b == (size_t) -1 ? n : b; if (e > n && a <= e) valid = false; else for (size_t x = a ; x <= e ; ++x) nums.push_back(x); } return r; };
	unsigned nops = 3 + (unsigned) s.draw(27); bool bad;
	for (unsigned k = 0 ; k < nops ; ++k) {
		clk += s.draw(2); std::string what; bool noFolder = folders(false, false).empty() && !w.courier;
		switch (noFolder && s.coin() ? 0 : opens.empty() && s.coin() ? 4 : s.weighted({ 3, 1, 3, 2, 3, 7, 5, 3, 3, 3, 3, 2, 2, 1, 1, 2, 1 })) {
		case 0: { // create
			P p = anyPath(bad, true); if (noFolder && s.coin()) { bad = false; p = P { goodName(s) }; } if (p.empty()) break; P par = p; par.pop_back(); if (!bad && !par.empty() && !w.has(par)) break; what = "create " + showP(p); NOTE(c, what); auto f = st->getFolder(toPath(p)); bool ok = tolerant([&]() { f->create(vmime::net::folderAttributes()); }); ++seenOps; bool inv = false; for (auto& x : p) { inv = inv || invalidName(x) || unsafeName(w, x); CHECK_EQ((int) st->isValidFolderName(netFolder::path::component(x, vmime::charset("utf-8"))), (int) !invalidName(x), "validity of the folder name " + pbt::show(x)); }
			if (w.has(p) || inv) { CHECK_MSG(!ok, what << " succeeded"); ++refused; } else { size_t len = p.back().size(), plen = 0; for (auto& x : p) plen = std::max(plen, x.size()); if (!(w.courier ? w.rel(p).size() > 200 : len > 255 || plen > 200)) CHECK_MSG(ok, what << " failed"); if (ok) w.t[p]; } if (ok && s.coin()) handles.push_back({ f, p }); break; }
		case 1: { // destroy
			P p = anyPath(bad, false); if (p.empty() || p[0] == "pin") break; what = "destroy " + showP(p); bool inv = false; for (auto& x : p) inv = inv || unsafeName(w, x); for (size_t i = opens.size() ; i-- ; ) if (under(p, opens[i].path)) { opens[i].f->close(false); forget(i); } NOTE(c, what); auto f = st->getFolder(toPath(p)); tolerant([&]() { f->destroy(); }); ++seenOps;
			if (!inv) for (auto i = w.t.begin() ; i != w.t.end() ; ) if (under(p, i->first)) i = w.t.erase(i); else ++i; else ++refused; break; }
		case 2: { // rename
			bool bad2; P p, q = anyPath(bad2, true); { auto fs = folders(false, false); bad = false; if (!fs.empty() && s.draw(4)) p = s.pick(fs); else p = anyPath(bad, false); } if (!bad2 && w.has(q) && s.draw(3)) q.push_back(goodName(s)); if (p.empty() || q.empty() || p[0] == "pin" || under(P { "pin" }, q)) break; P par = q; par.pop_back(); if (!bad2 && !par.empty() && !w.has(par)) break; what = "rename " + showP(p) + " to " + showP(q); NOTE(c, what); bool inv = bad || bad2; for (auto& x : q) inv = inv || invalidName(x) || unsafeName(w, x); for (auto& x : p) inv = inv || unsafeName(w, x);
			shared_ptr<netFolder> f; for (auto& h : handles) if (h.second == p && s.coin()) f = h.first; for (auto& o : opens) if (o.path == p && s.coin()) f = o.f; if (!f) f = st->getFolder(toPath(p)); auto rl = make_shared<renListener>(); if (s.coin()) handles.push_back({ f, p }); for (auto& h : handles) h.first->addFolderListener(rl.get());
			bool ok = tolerant([&]() { f->rename(toPath(q)); }); ++seenOps; for (auto& h : handles) h.first->removeFolderListener(rl.get());
			if (inv || !w.has(p) || w.has(q) || under(p, q)) { CHECK_MSG(!ok, what << " succeeded"); ++refused; }
			else { size_t longest = 0; for (auto& x : q) longest = std::max(longest, x.size()); for (auto& e : w.t) if (under(p, e.first)) { P n = q; n.insert(n.end(), e.first.begin() + (long) p.size(), e.first.end()); longest = std::max(longest, w.courier ? w.rel(n).size() : (size_t) 0); } if (longest <= 200) CHECK_MSG(ok, what << " failed");
				if (ok) { ++renamed; auto mv = [&](const P& x) { if (!under(p, x)) return x; P n = q; n.insert(n.end(), x.begin() + (long) p.size(), x.end()); return n; }; std::map<P, Folder> t; for (auto& e : w.t) t[mv(e.first)] = e.second; w.t = t; for (auto& o : opens) o.path = mv(o.path); for (auto& h : handles) h.second = mv(h.second); for (auto& e : rl->ev) CHECK_MSG(under(q, e), what << ": notified that " << showP(e) << " was renamed"); CHECK_EQ(fromPath(f->getFullPath()), q, what + ": path of the folder object"); } }
			for (auto& h : handles) if (h.first->getStore()) { CHECK_MSG(fromPath(h.first->getFullPath()) == h.second, what << ": a folder object now has the path " << showP(fromPath(h.first->getFullPath())) << " instead of " << showP(h.second)); CHECK(h.second.empty() || h.first->getName().getBuffer() == h.second.back()); } for (auto& o : opens) CHECK_MSG(fromPath(o.f->getFullPath()) == o.path, what << ": an open folder object has the path " << showP(fromPath(o.f->getFullPath())) << " instead of " << showP(o.path)); break; }
		case 3: { // list and attributes
			P p = anyPath(bad, false); what = "list " + showP(p); NOTE(c, what); bool rec = s.coin(); auto f = p.empty() && s.coin() ? st->getRootFolder() : st->getFolder(toPath(p)); std::vector<P> got; bool ok = tolerant([&]() { for (auto& x : f->getFolders(rec)) got.push_back(fromPath(x->getFullPath())); }); ++seenOps; std::vector<P> exp; bool kids = false; for (auto& e : w.t) if (e.first != p && under(p, e.first)) { kids = true; if (rec || e.first.size() == p.size() + 1) exp.push_back(e.first); }
			bool isF = p.empty() || w.has(p); if (isF) CHECK_MSG(ok, what << " failed"); if (ok) { std::sort(got.begin(), got.end()); CHECK_EQ(got, exp, what + (rec ? ": all folders below" : ": folders below")); } bool ex = false; bool exOk = tolerant([&]() { ex = f->exists(); }); if (isF) CHECK_MSG(exOk, what << ": exists() failed"); if (exOk) CHECK_MSG(ex == isF, what << ": exists() returned " << ex);
			if (isF) { auto a = f->getAttributes(); CHECK_EQ((a.getFlags() & vmime::net::folderAttributes::FLAG_HAS_CHILDREN) != 0, kids, what + ": has children"); } else tolerant([&]() { f->getAttributes(); }); if (auto par = f->getParent()) CHECK_MSG(fromPath(par->getFullPath()).size() + 1 == p.size(), what << ": parent"); break; }
		case 4: { // open
			std::vector<P> fs = folders(true, true); P p = !fs.empty() && s.draw(5) ? s.pick(fs) : anyPath(bad, false); if (p.empty() && !w.courier) break; if (opens.size() > 3) break; bool rw = s.draw(5) != 0; what = "open " + showP(p) + (rw ? "" : " read-only"); NOTE(c, what); shared_ptr<netFolder> f; for (auto& h : handles) if (h.second == p && h.first->getStore() && !h.first->isOpen()) f = h.first; if (!f) f = st->getFolder(toPath(p)); bool ok = tolerant([&]() { f->open(rw ? netFolder::MODE_READ_WRITE : netFolder::MODE_READ_ONLY); }); ++seenOps; CHECK_MSG(ok == w.isFolder(p), what << (ok ? " succeeded" : " failed")); verify(w, what);
			if (ok) { Open o; o.f = f; o.path = p; o.rw = rw; checkView(o, what.c_str(), true); o.cl = make_shared<cntListener>(); o.cl->n = o.order.size(); f->addMessageCountListener(o.cl.get()); CHECK_EQ(f->getMode(), rw ? (int) netFolder::MODE_READ_WRITE : (int) netFolder::MODE_READ_ONLY, "mode"); opens.push_back(o); } break; }
		case 5: { // add a message
			if (opens.empty()) break; Open& o = opens[s.draw(opens.size() - 1)]; auto m = std::make_shared<Msg>(); m->content = genContent(s, ++mn); int fl = s.oneIn(4) ? -1 : s.oneIn(5) ? (int) RECENT : (int) s.draw(0x7f); m->flags = fl == -1 ? 0 : fl & ALL; m->isNew = fl == RECENT; unsigned how = (unsigned) s.weighted({ 10, 3, 2, 3 }); if (m->content.empty()) how = 0; bool ok; what = "add message to " + showP(o.path);
			shared_ptr<vmime::message> vm; if (how == 1) { vm = make_shared<vmime::message>(); vm->parse(m->content); std::ostringstream os; vmime::utility::outputStreamAdapter a(os); vm->generate(a); m->content = os.str(); } NOTE(c, what << " flags " << fl << (how == 2 ? " from a failing stream " : " ") << pbt::show(m->content));
			struct failing : chunkIn { size_t left; failing(const std::string& d, const std::vector<size_t>& q, size_t l) : chunkIn(d, q), left(l) { } size_t read(byte_t* const d, const size_t n) { if (pos() >= left) throw vmime::exceptions::filesystem_exception("input failed", vmime::utility::path()); return chunkIn::read(d, std::min(n, left - pos())); } };
			std::vector<size_t> cuts = genCuts(s); if (!cuts.empty() && m->content.size() > 3000) for (auto& x : cuts) x += 500; if (how == 3) { g_failIn = (long) s.draw(5); g_failed = false; }
			ok = tolerant([&]() { if (how == 1) o.f->addMessage(vm, fl); else if (how == 2) { failing is(m->content, cuts, s.draw(m->content.size() - 1)); o.f->addMessage(is, m->content.size(), fl); } else { chunkIn is(m->content, cuts, s.coin()); o.f->addMessage(is, m->content.size(), fl); } }); g_failIn = -1; ++seenOps;
			bool exp = o.rw && how != 2 && !(how == 3 && g_failed); CHECK_MSG(ok == exp, what << (ok ? " succeeded" : " failed")); if (ok) { ++added; w.t[o.path].msgs.push_back(m); std::string before = what; verify(w, what); size_t n = o.order.size(); CHECK_MSG(o.f->getMessageCount() > n, what << ": message count " << o.f->getMessageCount() << " after " << n); checkView(o, what.c_str(), false); CHECK_MSG(o.order[n] == m, what << ": message " << n + 1 << " is not the one added"); } else ++refused; break; }
		case 6: { // fetch and extract
			if (opens.empty()) break; Open& o = opens[s.draw(opens.size() - 1)]; if (o.order.empty()) { CHECK_MSG(!tolerant([&]() { o.f->getMessage(1 + s.draw(2)); }), "getMessage in an empty folder"); break; } size_t i = s.draw(o.order.size() - 1); M m = o.order[i]; shared_ptr<netMessage> msg; for (auto& h : o.held) if (h.second == m && s.coin()) msg = h.first; what = "fetch message " + std::to_string(i + 1) + " of " + showP(o.path);
			NOTE(c, what); int at = (int) s.draw(0xffff) & (fetchAttributes::ENVELOPE | fetchAttributes::STRUCTURE | fetchAttributes::CONTENT_INFO | fetchAttributes::FLAGS | fetchAttributes::SIZE | fetchAttributes::FULL_HEADER | fetchAttributes::UID | fetchAttributes::IMPORTANCE); bool have = msg != nullptr; if (!msg) { if (s.oneIn(3)) { auto l = o.f->getAndFetchMessages(messageSet::byNumber(i + 1), fetchAttributes(at)); CHECK(l.size() == 1); msg = l[0]; } else { msg = o.f->getMessage(i + 1); o.f->fetchMessage(msg, fetchAttributes(at)); } } else { std::vector<shared_ptr<netMessage>> v { msg }; o.f->fetchMessages(v, fetchAttributes(at)); } ++seenOps; CHECK_EQ(msg->getNumber(), i + 1, what + ": number"); CHECK(!msg->isExpunged());
			auto whole = make_shared<vmime::message>(); whole->parse(m->content); if (at & fetchAttributes::FLAGS) { CHECK_EQ(msg->getFlags() & ALL, m->flags, what + ": flags"); o.cached[msg.get()] = m->flags; } if (at & fetchAttributes::SIZE) CHECK_EQ(msg->getSize(), m->content.size(), what + ": size"); if (at & fetchAttributes::UID) CHECK_EQ(std::string(msg->getUID()), m->id, what + ": uid"); if (at & fetchAttributes::FULL_HEADER) CHECK_EQ(msg->getHeader()->generate(), whole->getHeader()->generate(), what + ": header");
			for (unsigned j = 0, n = (unsigned) s.draw(2) ; j < n ; ++j) { strOut os; size_t len = m->content.size(), a = s.coin() ? 0 : s.draw(len + 3), b = s.coin() ? (size_t) -1 : s.draw(len + 3); NOTE(c, "extract " << a << "+" << (long) b); msg->extract(os, NULL, a, b, s.coin()); CHECK_EQ(os.s, m->content.substr(std::min(a, len), b), what + ": extracted octets " + std::to_string(a) + "+" + std::to_string((long) b)); } if (s.oneIn(4)) CHECK_MSG(msg->getParsedMessage()->generate() == whole->generate(), what << ": parsed message");
			if (at & fetchAttributes::STRUCTURE) { std::function<void(shared_ptr<vmime::net::messageStructure>, std::vector<shared_ptr<vmime::bodyPart>>, unsigned)> cmp = [&](shared_ptr<vmime::net::messageStructure> stc, std::vector<shared_ptr<vmime::bodyPart>> parts, unsigned depth) { CHECK_EQ(stc->getPartCount(), parts.size(), what + ": parts"); for (size_t x = 0 ; x < parts.size() ; ++x) { auto pt = stc->getPartAt(x); auto bp = parts[x]; CHECK(pt->getType() == bp->getBody()->getContentType()); size_t ba = bp->getBody()->getParsedOffset(), bl = bp->getBody()->getParsedLength(), a = s.coin() ? 0 : s.draw(bl + 3), b = s.coin() ? (size_t) -1 : s.draw(bl + 3); strOut os; msg->extractPart(pt, os, NULL, a, b, s.coin()); CHECK_EQ(os.s, m->content.substr(ba, bl).substr(std::min(a, bl), b), what + ": octets " + std::to_string(a) + "+" + std::to_string((long) b) + " of a part"); msg->fetchPartHeader(pt); CHECK_EQ(pt->getHeader()->generate(), bp->getHeader()->generate(), what + ": header of a part"); if (depth < 5) cmp(pt->getStructure(), bp->getBody()->getPartList(), depth + 1); } };
				auto stc = msg->getStructure(); cmp(stc, { whole }, 0); }
			if (!have && s.coin()) o.held.push_back({ msg, m }); break; }
		case 7: case 8: { // flags
			if (opens.empty()) break; Open& o = opens[s.draw(opens.size() - 1)]; std::vector<size_t> nums; bool valid; int fl = s.oneIn(4) ? (int) DELETED : (int) s.draw(0x7f), mode = (int) s.draw(2); auto set = genSet(o, nums, valid); bool one = o.held.size() && s.oneIn(3), del = !one && s.oneIn(3); bool ok; if (del) { fl = DELETED; mode = netMessage::FLAG_MODE_ADD; }
			if (one) { auto h = o.held[s.draw(o.held.size() - 1)]; auto it = std::find(o.order.begin(), o.order.end(), h.second); nums.clear(); valid = it != o.order.end(); if (valid) nums.push_back((size_t) (it - o.order.begin()) + 1); what = "flags " + std::to_string(fl) + " mode " + std::to_string(mode) + " through a message"; NOTE(c, what); ok = tolerant([&]() { h.first->setFlags(fl, mode); }); }
			else { what = std::string(del ? "delete" : "flags ") + std::to_string(fl) + " mode " + std::to_string(mode) + " of " + pbt::show(nums) + (valid ? "" : " and others"); NOTE(c, what); ok = tolerant([&]() { if (del) o.f->deleteMessages(set); else o.f->setMessageFlags(set, fl, mode); }); }
			++seenOps; CHECK_MSG(ok == (o.rw && valid), what << (ok ? " succeeded" : " failed") << (o.rw ? "" : " in a read-only folder")); if (!ok) ++refused; if (ok) for (size_t n : nums) { M m = o.order[n - 1]; int f = fl & ALL; m->flags = mode == netMessage::FLAG_MODE_SET ? f : mode == netMessage::FLAG_MODE_ADD ? m->flags | f : m->flags & ~f; m->isNew = false; } 
			if (ok) for (auto& h : o.held) { auto ch = o.cached.find(h.first.get()); if (ch == o.cached.end() || h.first->isExpunged()) continue; for (size_t n : nums) if (o.order[n - 1] == h.second) { int f = fl & ALL; ch->second = mode == netMessage::FLAG_MODE_SET ? f : mode == netMessage::FLAG_MODE_ADD ? ch->second | f : ch->second & ~f; } CHECK_EQ(h.first->getFlags() & ALL, ch->second, what + ": flags of a message object"); } break; }
		case 9: { // copy
			if (opens.empty()) break; Open& o = opens[s.draw(opens.size() - 1)]; P q = anyPath(bad, false); if (q.empty() && !w.courier) break; std::vector<size_t> nums; bool valid; auto set = genSet(o, nums, valid); bool uid = s.oneIn(12); if (uid) set = messageSet::byUID("x"); what = "copy " + pbt::show(nums) + (valid ? "" : " and others") + (uid ? " by uid" : "") + " of " + showP(o.path) + " to " + showP(q); NOTE(c, what); if (s.oneIn(6)) { g_failIn = (long) s.draw(9); g_failed = false; } else g_failed = false; bool ok = tolerant([&]() { o.f->copyMessages(toPath(q), set); }); g_failIn = -1; ++seenOps;
			bool exp = w.isFolder(q) && valid && !uid && !g_failed; CHECK_MSG(ok == exp, what << (ok ? " succeeded" : " failed")); if (!ok) ++refused; if (ok || (g_failed && w.isFolder(q) && valid && !uid)) { size_t have = w.t[q].msgs.size(), files = 0; if (!ok) { std::map<std::string, char> d; std::string r = w.rel(q); for (const char* x : { "cur", "new" }) walk(w.root + "/" + r + "/" + x, "", d); files = d.size(); CHECK_MSG(files >= have && files - have < nums.size(), what << ": " << files << " files after a failure, " << have << " before"); } for (size_t j = 0 ; j < nums.size() && (ok || have + j < files) ; ++j) { auto m = std::make_shared<Msg>(*o.order[nums[j] - 1]); m->id.clear(); m->isNew = false; w.t[q].msgs.push_back(m); } } if (ok) { bool sees = false; for (auto& x : opens) if (&x != &o && x.path == q) { if (!sees) verify(w, what); sees = true; checkView(x, (what + ", seen by another open folder").c_str(), true); } } break; }
		case 10: { // expunge
			if (opens.empty()) break; Open& o = opens[s.draw(opens.size() - 1)]; what = "expunge " + showP(o.path); NOTE(c, what); bool ok = tolerant([&]() { o.f->expunge(); }); ++seenOps; CHECK_MSG(ok == o.rw, what << (ok ? " succeeded" : " failed")); if (ok) { std::vector<M> gone; for (auto& m : o.order) if (m->flags & DELETED) gone.push_back(m); expunged += (unsigned) gone.size(); auto isGone = [&](const M& m) { return std::find(gone.begin(), gone.end(), m) != gone.end(); }; auto& ms = w.t[o.path].msgs; ms.erase(std::remove_if(ms.begin(), ms.end(), isGone), ms.end()); for (auto& x : opens) if (x.path == o.path) x.order.erase(std::remove_if(x.order.begin(), x.order.end(), isGone), x.order.end()); } break; }
		case 11: { // status
			bool viaOpen = !opens.empty() && s.coin(); Open* o = viaOpen ? &opens[s.draw(opens.size() - 1)] : nullptr; P p = o ? o->path : anyPath(bad, false); if (p.empty() && !w.courier) break; shared_ptr<netFolder> f = o ? o->f : st->getFolder(toPath(p)); if (!o) for (auto& h : handles) if (h.second == p && h.first->getStore() && !h.first->isOpen()) f = h.first; what = "status of " + showP(p); NOTE(c, what); size_t cnt = 0, uns = 0; bool ok = tolerant([&]() { if (s.coin()) { auto x = f->getStatus(); cnt = x->getMessageCount(); uns = x->getUnseenCount(); } else f->status(cnt, uns); }); ++seenOps; if (w.isFolder(p)) { size_t u = 0; for (auto& m : w.t[p].msgs) u += !(m->flags & SEEN); CHECK_MSG(ok, what << " failed"); CHECK_EQ(cnt, w.t[p].msgs.size(), what + ": count"); CHECK_EQ(uns, u, what + ": unseen"); verify(w, what); if (o) checkView(*o, what.c_str(), true); } else if (ok) CHECK_MSG(cnt == 0 && uns == 0, what << ": " << cnt << " messages in a folder which does not exist"); break; }
		case 12: { // external change
			std::vector<P> ps = folders(true, true); if (ps.empty()) break; P p = s.pick(ps); if (p.empty() && !w.courier) break; auto& ms = w.t[p].msgs; if (s.coin() || ms.empty()) { extDeliver(p); what = "external delivery"; }
			else { M m = s.pick(ms); if (m->isNew) break; std::map<std::string, char> d; std::string dir = w.root + "/" + w.rel(p) + "/cur"; walk(dir, "", d); std::string from; for (auto& e : d) { std::string id; int fl; splitName(e.first, id, fl); if (id == m->id) from = e.first; } m->flags = (int) s.draw(0x7f) & ALL; std::string to = m->id + ":2," + flagLetters(m->flags); if (from != to) CHECK(rename((dir + "/" + from).c_str(), (dir + "/" + to).c_str()) == 0); what = "external change of flags to " + to; NOTE(c, what << " in " << showP(p)); for (auto& o : opens) if (o.path == p) { size_t a, b; o.f->status(a, b); } } break; }
		case 13: { // disconnect and reconnect
			what = "disconnect"; NOTE(c, what); bool same = s.coin(); st->disconnect(); for (size_t i = opens.size() ; i-- ; ) forget(i); handles.clear(); if (same) st->connect(); else newStore(); break; }
		case 14: { // use of stale objects: refused, never a crash or a change
			if (stale.empty()) break; auto& x = stale[s.draw(stale.size() - 1)]; what = "use of a closed folder"; NOTE(c, what); bool any = false; auto f = x.first; if (f->isOpen() && f->getStore()) break; bool conn = (bool) f->getStore(); for (auto& m : x.second) { strOut os; any = any || tolerant([&]() { m->extract(os); }) || tolerant([&]() { m->setFlags(SEEN); }) || tolerant([&]() { f->fetchMessage(m, fetchAttributes(fetchAttributes::FLAGS)); }); tolerant([&]() { m->getParsedMessage(); }); tolerant([&]() { m->getNumber(); }); }
			std::string body = "x"; vmime::utility::inputStreamStringAdapter is(body); any = any || tolerant([&]() { f->addMessage(is, 1); }) || tolerant([&]() { f->expunge(); }) || tolerant([&]() { f->setMessageFlags(messageSet::byNumber(1), SEEN); }) || tolerant([&]() { f->copyMessages(toPath(P { "a" }), messageSet::byNumber(1)); }); if (!conn) { any = any || tolerant([&]() { f->exists(); }) || tolerant([&]() { f->getStatus(); }) || tolerant([&]() { f->getAttributes(); }) || tolerant([&]() { f->rename(toPath(P { "zz" })); }) || tolerant([&]() { f->destroy(); }) || tolerant([&]() { f->create(vmime::net::folderAttributes()); }); tolerant([&]() { f->getFolders(true); }); tolerant([&]() { f->getParent(); }); tolerant([&]() { f->close(true); }); }
			CHECK_MSG(!any, what << " succeeded"); break; }
		case 15: { // close
			if (opens.empty()) break; size_t i = s.draw(opens.size() - 1); Open& o = opens[i]; bool ex = s.oneIn(3); what = std::string("close") + (ex ? " with expunge " : " ") + showP(o.path); NOTE(c, what); bool ok = tolerant([&]() { o.f->close(ex); }); ++seenOps; CHECK_MSG(ok == (o.rw || !ex), what << (ok ? " succeeded" : " failed")); if (!ok) { o.f->close(false); } else if (ex) { std::vector<M> gone; for (auto& m : o.order) if (m->flags & DELETED) gone.push_back(m); expunged += (unsigned) gone.size(); auto isGone = [&](const M& m) { return std::find(gone.begin(), gone.end(), m) != gone.end(); }; auto& ms = w.t[o.path].msgs; ms.erase(std::remove_if(ms.begin(), ms.end(), isGone), ms.end()); for (auto& x : opens) if (&x != &o && x.path == o.path) x.order.erase(std::remove_if(x.order.begin(), x.order.end(), isGone), x.order.end()); }
			if (s.coin()) { handles.push_back({ o.f, o.path }); } forget(i); break; }
		default: { // a folder obtained from another one
			std::vector<P> ps = folders(false, true); if (ps.empty()) break; P p = s.pick(ps); what = "getFolder " + showP(p); auto f = st->getRootFolder(); for (auto& x : p) f = f->getFolder(netFolder::path::component(x, vmime::charset("utf-8"))); CHECK_MSG(f->exists(), what << ": does not exist"); CHECK(fromPath(f->getFullPath()) == p); handles.push_back({ f, p }); break; }
		}
		if (what.empty()) continue; c.mix(what); verify(w, what);
		for (auto& o : opens) { checkView(o, what.c_str(), false); for (auto& h : o.held) { auto it = std::find(o.order.begin(), o.order.end(), h.second); if (it == o.order.end()) { CHECK_MSG(h.first->isExpunged(), what << ": an expunged message does not know it is"); strOut os; CHECK_MSG(!tolerant([&]() { h.first->extract(os); }), what << ": an expunged message can be extracted"); } else { CHECK_MSG(!h.first->isExpunged(), what << ": a message claims it is expunged"); CHECK_EQ(h.first->getNumber(), (size_t) (it - o.order.begin()) + 1, what + ": number of a message object"); } } }
	}
	// Another store shows the same
	for (auto& o : opens) o.f->removeMessageCountListener(o.cl.get()); opens.clear(); handles.clear(); stale.clear(); if (s.coin()) st->disconnect(); newStore(); std::vector<P> got, exp; for (auto& x : st->getRootFolder()->getFolders(true)) got.push_back(fromPath(x->getFullPath())); for (auto& e : w.t) if (!e.first.empty()) exp.push_back(e.first); std::sort(got.begin(), got.end()); CHECK_EQ(got, exp, "folders after reopening"); verify(w, "reopening");
	for (auto& e : w.t) { if (!w.isFolder(e.first)) continue; Open o; o.f = st->getFolder(toPath(e.first)); o.path = e.first; o.f->open(netFolder::MODE_READ_ONLY); verify(w, "reopening"); checkView(o, "reopening", true); for (size_t i = 0 ; i < o.order.size() ; ++i) { auto m = o.f->getMessage(i + 1); o.f->fetchMessage(m, fetchAttributes(fetchAttributes::FLAGS)); CHECK_EQ(m->getFlags() & ALL, o.order[i]->flags, "flags after reopening"); strOut os; m->extract(os); CHECK_EQ(os.s, o.order[i]->content, "content after reopening"); } o.f->close(false); } verify(w, "closing");
	c.label(w.courier ? "courier" : "kmail"); if (added) c.label("messages added"); if (expunged) c.label("messages expunged"); if (renamed) c.label("folder renamed"); if (refused) c.label("operation refused"); c.nontrivial(seenOps >= 3 && (added || renamed || expunged)); c.mix(pbt::show(exp.size())); for (auto& e : exp) c.mix(showP(e)); c.mix(mn);
}

pbt::Property makeProperty() {
	pbt::Property p; p.id = "C32"; p.run = run; p.quick = 8000; p.thorough = 200000;
	p.rule = "A case is a maildir in one of the two layouts (made by the harness, with messages delivered by other programs, links to the outside and unrelated files) and up to 25 operations on it through one store: folders created, destroyed, renamed, listed, opened; messages added (from memory, objects, failing streams, failing disks), fetched, extracted, flagged, copied, expunged; deliveries and flag changes by other programs; disconnections; stale objects; folder names which are unusual, unusable or point outside the root. It is non-trivial when at least three operations ran and messages were added or expunged or a folder renamed.";
	p.init = []() { vmime::platform::setHandler<guardHandler>(); };
	p.assumptions = { "Folders are created and renamed only below existing folders; the root folder is never destroyed.", "Changes made by other programs are followed by a status request before numbers are used again.", "File systems are case sensitive and accept any byte except '/' and NUL (the harness runs on one)." };
	return p;
}
