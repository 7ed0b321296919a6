// C33: what the sendmail program receives (arguments, standard input, signal mask), and what the caller is told when the program fails; and child processes themselves.
// FLAVOURS: main
#include "common.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/utility/childProcess.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
namespace vn = vmime::net; using vmime::shared_ptr;
static int rmOne(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void wipe(const std::string& d) { nftw(d.c_str(), rmOne, 8, FTW_DEPTH | FTW_PHYS); }
static bool slurp(const std::string& f, std::string& r) { FILE* h = fopen(f.c_str(), "rb"); if (!h) return false; char b[65536]; size_t n; r.clear(); while ((n = fread(b, 1, sizeof b, h)) > 0) r.append(b, n); fclose(h); return true; }
static unsigned openFds() { unsigned n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static void onUsr(int) { }
// signals which interrupt the system calls of the library
struct ticks { timer_t t; bool on = false; void start() { if (on) return; on = true; struct sigevent e; memset(&e, 0, sizeof e); e.sigev_notify = SIGEV_SIGNAL; e.sigev_signo = SIGUSR1; timer_create(CLOCK_MONOTONIC, &e, &t); struct itimerspec i; memset(&i, 0, sizeof i); i.it_value.tv_nsec = i.it_interval.tv_nsec = 1000000; timer_settime(t, 0, &i, nullptr); } ~ticks() { if (on) timer_delete(t); } };
struct dataIn : vmime::utility::inputStream { const std::string& d; size_t pos = 0, fail; std::vector<size_t> cuts; size_t ci = 0; ticks* tk = nullptr; dataIn(const std::string& x, size_t f, const std::vector<size_t>& c) : d(x), fail(f), cuts(c) { } bool eof() const { return pos >= d.size(); } void reset() { pos = 0; } size_t skip(const size_t n) { size_t k = std::min(n, d.size() - pos); pos += k; return k; }
	size_t read(byte_t* const b, const size_t n) { if (tk) tk->start(); if (pos >= fail) throw vmime::exceptions::system_error("user stream"); size_t k = std::min({ n, d.size() - pos, fail - pos }); if (!cuts.empty()) k = std::min(k, std::max<size_t>(1, cuts[ci++ % cuts.size()])); memcpy(b, d.data() + pos, k); pos += k; return k; } };
struct adr { std::string local, domain, expect; };
static adr genAdr(Source& s) {
	adr a; switch (s.weighted({ 4, 2, 2, 1, 1 })) { case 0: a.local = s.str(1 + s.draw(9), "abcz09"); break; case 1: a.local = s.str(1 + s.draw(12), "a.-+_$`;|&*'/=!{}~^%#?"); break; case 2: a.local = s.str(1 + s.draw(12), "a \"\\()<>,;:@[]$`-"); break; case 3: a.local = "-" + s.str(s.draw(6), "foXit-"); break; default: a.local = s.str(60 + s.draw(300), "abc. -"); }
	for (size_t i ; (i = a.local.find("=?")) != std::string::npos ; ) a.local.erase(i, 1);
	if (a.local.empty()) a.local = "u";
	if (s.oneIn(6)) { a.domain = "b\xc3\xbc" "cher.example"; a.expect = "xn--bcher-kva.example"; } else { a.domain = s.pick({ "example.org", "localhost", "a.b.c.example", "-x.example", "[192.0.2.1]", "a" }); if (s.oneIn(8)) { a.domain = ""; for (unsigned i = 0, n = 1 + (unsigned) s.draw(20) ; i < n ; ++i) a.domain += std::string(1 + s.draw(20), 'd') + "."; a.domain += "example"; } a.expect = a.domain; }
	return a;
}
static vmime::mailbox box(const adr& a) { return vmime::mailbox(vmime::emailAddress(vmime::word(a.local, vmime::charset("utf-8")), vmime::word(a.domain, vmime::charset("utf-8")))); }
// reads an address which was given to the program
static bool readAdr(const std::string& t, std::string& local, std::string& domain) { local.clear(); size_t i = 0; if (!t.empty() && t[0] == '"') { for (i = 1 ; i < t.size() && t[i] != '"' ; ++i) { if (t[i] == '\\' && i + 1 < t.size()) ++i; local += t[i]; } if (i >= t.size()) return false; ++i; } else { for ( ; i < t.size() && t[i] != '@' ; ++i) { if (strchr(" \"\\()<>,;:[]\t\r\n", t[i])) return false; local += t[i]; } } if (i >= t.size() || t[i] != '@') return false; domain = t.substr(i + 1); return true; }
static std::string genData(Source& s) { std::string r; unsigned n = (unsigned) s.draw(12); for (unsigned i = 0 ; i < n ; ++i) switch (s.weighted({ 5, 2, 2, 2, 1, 1, 1 })) { case 0: r += s.str(s.draw(70), "abc .=") + "\r\n"; break; case 1: r += "\r"; break; case 2: r += "\n"; break; case 3: r += "\r\n"; break; case 4: r += s.bytes(20); break; case 5: r += "."; r += s.coin() ? "\r\n" : "\n"; break; default: r += s.bulk(s.sizeNear(200000, { 4096, 65536, 131072 }), "ab\r\n."); } return r; }
static std::string lf(const std::string& d) { std::string r; r.reserve(d.size()); for (size_t i = 0 ; i < d.size() ; ++i) { if (d[i] == '\r' && i + 1 < d.size() && d[i + 1] == '\n') continue; r += d[i]; } return r; }
enum prog { P_OK, P_EXIT, P_SIGNAL, P_EARLY, P_HEAD, P_MISSING, P_NOEXEC, P_DIR };
static const char* progName[] = { "reads everything", "exits with a status", "is killed by a signal", "exits without reading", "reads a part", "does not exist", "is not executable", "is a directory" };
static std::string sq(const std::string& x) { std::string r = "'"; for (char c : x) if (c == '\'') r += "'\\''"; else r += c; return r + "'"; }
static std::vector<std::string> words(const std::string& d) { std::vector<std::string> v; size_t b = 0, e; while ((e = d.find('\0', b)) != std::string::npos) { v.push_back(d.substr(b, e - b)); b = e + 1; } if (b < d.size()) v.push_back(d.substr(b)); return v; }
static void sendCase(Source& s, Ctx& c, const std::string& dir) {
	static const std::vector<std::string> names = { "sendmail", "send mail", "s\xc3\xa9nd", "a'b\"c", "$(x)", "-n", "x;y" }; const std::string bin = dir + "/" + (s.oneIn(4) ? s.pick({ "sub dir", "$HOME", "d\xff" }) + std::string("/") : std::string()) + names[s.weighted({ 6, 1, 1, 1, 1, 1, 1 })]; { std::string p = bin.substr(0, bin.rfind('/')); mkdir(p.c_str(), 0700); }
	auto sess = vn::session::create(); sess->getProperties()["transport.protocol"] = "sendmail"; sess->getProperties()["transport.sendmail.binpath"] = bin; auto tr = sess->getTransport(); sigset_t m0, m1; sigprocmask(SIG_SETMASK, nullptr, &m0);
	if (s.oneIn(10)) { c.label("not connected"); std::string d = "x"; vmime::utility::inputStreamStringAdapter is(d); bool threw = false; try { vmime::mailboxList l; l.appendMailbox(vmime::make_shared<vmime::mailbox>("a@b.example")); tr->send(vmime::mailbox("c@d.example"), l, is, 1); } catch (const vmime::exceptions::not_connected&) { threw = true; } CHECK_MSG(threw, "send() without connect() did not throw not_connected"); }
	tr->connect(); CHECK(tr->isConnected()); unsigned sends = 1 + (unsigned) s.weighted({ 4, 2, 1 }); const unsigned fds = openFds();
	for (unsigned q = 0 ; q < sends ; ++q) {
		prog P = (prog) s.weighted({ 8, 3, 2, 2, 2, 1, 1, 1 }); unsigned status = 1 + (unsigned) s.draw(254), keep = (unsigned) s.sizeNear(70000, { 4096, 65536 }); static const int sigs[] = { SIGKILL, SIGTERM, SIGABRT, SIGHUP, SIGUSR2, SIGPIPE, 37 }; int sig = sigs[s.draw(6)]; bool readFirst = s.coin(), slow = s.oneIn(12), tick = slow && s.coin();
		std::string script = "#!/bin/sh\nexec 2>/dev/null\nulimit -t 20\nD=" + sq(dir) + "\nprintf '%s\\0' \"$@\" >\"$D/args\"\nwhile read k v; do [ \"$k\" = SigBlk: ] && echo $v >\"$D/mask\"; done </proc/self/status\n"; if (slow) script += "sleep 0.03\n";
		switch (P) { case P_OK: script += "cat >\"$D/data\" && : >\"$D/done\"\nexit 0\n"; break; case P_EXIT: script += (readFirst ? "cat >\"$D/data\"\n" : "") + std::string("exit ") + std::to_string(status) + "\n"; break; case P_SIGNAL: script += (readFirst ? "cat >\"$D/data\"\n" : "") + std::string("kill -") + std::to_string(sig) + " $$\nexit 77\n"; break; case P_EARLY: script += "exit 0\n"; break; default: script += "head -c " + std::to_string(keep) + " >\"$D/data\"\nexit 0\n"; }
		wipe(bin); if (P == P_DIR) mkdir(bin.c_str(), 0700); else if (P != P_MISSING) { FILE* h = fopen(bin.c_str(), "wb"); if (!h) throw pbt::Discard(); fwrite(script.data(), 1, script.size(), h); fclose(h); chmod(bin.c_str(), P == P_NOEXEC ? 0600 : 0700); } for (const char* f : { "/args", "/mask", "/data", "/done" }) unlink((dir + f).c_str());
		adr from = genAdr(s), sender = genAdr(s); bool hasSender = s.oneIn(3); std::vector<adr> to; unsigned n = 1 + (unsigned) (s.oneIn(10) ? s.draw(200) : s.draw(4)); for (unsigned i = 0 ; i < n ; ++i) to.push_back(genAdr(s)); bool asMsg = s.oneIn(4); std::string data = genData(s), expect; if (slow && s.coin()) data += s.bulk(150000 + s.draw(100000), "ab\r\n."); size_t fail = !asMsg && s.oneIn(6) ? s.draw(data.size()) : (size_t) -1; if (fail == data.size()) fail = (size_t) -1; std::vector<size_t> cuts; if (s.coin()) { unsigned k = 1 + (unsigned) s.draw(3); for (unsigned i = 0 ; i < k ; ++i) cuts.push_back(data.size() > 5000 ? 500 + s.draw(5000) : s.draw(20)); }
		vmime::mailboxList list; for (auto& a : to) list.appendMailbox(vmime::make_shared<vmime::mailbox>(box(a)));
		NOTE(c, "program " << progName[P] << (P == P_EXIT ? " " + std::to_string(status) : P == P_SIGNAL ? " " + std::to_string(sig) : P == P_HEAD ? " " + std::to_string(keep) : "") << (slow ? ", slow" : "") << (tick ? ", with signals" : "") << "; from " << pbt::show(from.local) << "@" << from.domain << (hasSender ? " sender " + pbt::show(sender.local) + "@" + sender.domain : "") << "; " << to.size() << " recipients; " << data.size() << " bytes " << pbt::show(data.substr(0, 200)) << (fail != (size_t) -1 ? " fails at " + std::to_string(fail) : "") << (asMsg ? " as a message" : "")); c.mix(std::to_string(P) + std::to_string(status) + data.substr(0, 5000) + from.local + std::to_string(to.size()) + to[0].local);
		bool threw = false; std::string ex; { ticks tk; try {
			if (asMsg) { // every recipient of To, Cc and Bcc; without the fields which are not to be sent
				auto m = vmime::make_shared<vmime::message>(); auto h = m->getHeader(); h->From()->setValue(box(from)); if (hasSender) h->Sender()->setValue(box(sender)); vmime::addressList l[3]; size_t i1 = s.draw(to.size()), i2 = i1 + s.draw(to.size() - i1); for (size_t i = 0 ; i < to.size() ; ++i) l[i < i1 ? 0 : i < i2 ? 1 : 2].appendAddress(vmime::make_shared<vmime::mailbox>(box(to[i]))); if (l[0].getAddressCount()) h->To()->setValue(l[0]); if (l[1].getAddressCount()) h->Cc()->setValue(l[1]); h->Date()->setValue(vmime::datetime(2020, 1, 2, 3, 4, 5)); h->MessageId()->setValue(vmime::messageId("a@b")); h->MimeVersion()->setValue(vmime::string("1.0")); m->getBody()->setContents(vmime::make_shared<vmime::stringContentHandler>(data)); expect = m->generate(); if (l[2].getAddressCount()) h->Bcc()->setValue(l[2]); tr->send(m); CHECK_MSG(!l[2].getAddressCount() || h->hasField("Bcc"), "send() removed the Bcc field of the message");
			} else { dataIn is(data, fail, cuts); if (tick) is.tk = &tk; expect = data; tr->send(box(from), list, is, data.size(), nullptr, hasSender ? box(sender) : vmime::mailbox()); }
		} catch (const vmime::exception& e) { threw = true; ex = e.what(); } } NOTE(c, "  -> " << (threw ? "exception " + ex : "sent")); c.nontrivial(); c.label(std::string("program ") + progName[P] + (fail != (size_t) -1 ? ", stream fails" : "") + (threw ? ": exception" : ": sent")); if (tick) c.label("with signals"); if (asMsg) c.label("message");
		sigprocmask(SIG_SETMASK, nullptr, &m1); CHECK_MSG(!memcmp(&m0, &m1, 8), "send() changed the signal mask"); CHECK_EQ(openFds(), fds, "open files after send()"); CHECK_MSG(waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "a child process remains after send()"); CHECK(tr->isConnected());
		std::string d, x; if (P == P_OK && fail == (size_t) -1) {
			CHECK_MSG(!threw, "send() failed though the program succeeded: " << ex); CHECK(slurp(dir + "/data", d)); std::string w = lf(expect); if (d != w) { size_t k = 0; while (k < d.size() && k < w.size() && d[k] == w[k]) ++k; FAIL("the program read " << d.size() << " bytes, and not the " << w.size() << " of the message; they differ at " << k << ": " << pbt::show(d.substr(k, 40)) << " / " << pbt::show(w.substr(k, 40))); }
		} else if (fail != (size_t) -1) { CHECK_MSG(threw, "send() succeeded though the stream failed"); CHECK_MSG(!slurp(dir + "/done", x), "the program took a message whose stream failed for a complete one");
		} else if (P != P_EARLY && P != P_HEAD) CHECK_MSG(threw, "send() succeeded though the program " << progName[P]);
		if (slurp(dir + "/mask", x) && !x.empty()) { uint64_t mk = strtoull(x.c_str(), nullptr, 16), own = 0; for (int i = 1 ; i < 64 ; ++i) if (sigismember(&m0, i) == 1) own |= 1ull << (i - 1); CHECK_EQ(mk, own, "signals blocked in the program"); }
		if (slurp(dir + "/args", x) && (P == P_OK && fail == (size_t) -1)) { auto v = words(x); std::vector<adr> e; CHECK_EQ(v.size(), 4 + to.size(), "number of arguments"); CHECK_EQ(v[0], "-i", "first argument"); CHECK_EQ(v[1], "-f", "second argument"); CHECK_EQ(v[3], "--", "argument before the recipients"); auto same = [&](const std::string& t, const adr& a, const std::string& what) { std::string lo, dm; CHECK_MSG(readAdr(t, lo, dm) && lo == a.local && dm == a.expect, what << ": got " << pbt::show(t) << " for " << pbt::show(a.local) << "@" << a.expect); }; same(v[2], hasSender ? sender : from, "sender"); for (size_t i = 0 ; i < to.size() ; ++i) same(v[4 + i], to[i], "recipient " + std::to_string(i)); }
		for (const char* f : { "/args", "/mask", "/data", "/done" }) unlink((dir + f).c_str());
	}
	if (s.coin()) { tr->disconnect(); CHECK(!tr->isConnected()); }
}
static std::string readAll(vmime::utility::inputStream& is, Ctx&) { std::string r; byte_t b[5000]; unsigned idle = 0; while (!is.eof()) { size_t n = is.read(b, sizeof b); r.append(reinterpret_cast<const char*>(b), n); CHECK_MSG(n || ++idle < 100, "the end of the output is never seen"); } return r; }
static void childCase(Source& s, Ctx& c, const std::string& dir) {
	int flags = (int) s.draw(3); bool in = flags & vmime::utility::childProcess::FLAG_REDIRECT_STDIN, out = flags & vmime::utility::childProcess::FLAG_REDIRECT_STDOUT; std::vector<std::string> args; unsigned n = (unsigned) s.draw(6); for (unsigned i = 0 ; i < n ; ++i) { std::string a = s.oneIn(3) ? s.bytes(10) : s.str(s.draw(12), "a -$`'\"\\*\n"); a.erase(std::remove(a.begin(), a.end(), '\0'), a.end()); args.push_back(a); }
	std::string data = in ? s.bulk(s.draw(30000), "ab\r\n.") : "", name = s.pick({ "sh", "my shell", "x'y" }), bin = dir + "/" + name; unlink(bin.c_str()); if (symlink("/bin/sh", bin.c_str())) throw pbt::Discard(); unsigned status = s.coin() ? 0 : (unsigned) s.draw(255); bool big = out && !in && s.oneIn(4), stop = s.oneIn(6); const unsigned fds = openFds(); sigset_t m0, m1; sigprocmask(SIG_SETMASK, nullptr, &m0);
	std::string to = out ? "" : " >" + sq(dir + "/out"), script = "exec 2>/dev/null; ulimit -t 20; { tr '\\0' '\\n' </proc/$$/cmdline | head -n 1; printf '%s\\0' \"$@\"; " + std::string(in ? "cat; " : "") + (big ? "head -c 150000 /dev/zero; " : "") + "}" + to + "; exit " + std::to_string(status); unlink((dir + "/out").c_str());
	NOTE(c, "child process, flags " << flags << ", " << n << " arguments, " << data.size() << " bytes in, exit status " << status << (big ? ", big output" : "")); c.mix(std::to_string(flags) + std::to_string(status) + data.substr(0, 50) + std::to_string(big)); for (auto& a : args) { NOTE(c, "  " << pbt::show(a)); c.mix(a); }
	std::string expect = name + "\n"; for (auto& a : args) expect += a + '\0'; if (args.empty()) expect += '\0'; expect += data; if (big) expect += std::string(150000, '\0');
	std::string got; bool threw = false; { auto pr = vmime::platform::getHandler()->getChildProcessFactory()->create(vmime::platform::getHandler()->getFileSystemFactory()->stringToPath(bin)); std::vector<std::string> av = { "-c", script, "zero" }; av.insert(av.end(), args.begin(), args.end()); pr->start(av, flags); CHECK_EQ(!!pr->getStdIn(), in, "whether there is a standard input"); CHECK_EQ(!!pr->getStdOut(), out, "whether there is a standard output");
		if (in) { size_t k = 0; while (k < data.size()) { size_t m = 1 + s.draw(data.size() - k - 1); pr->getStdIn()->write(data.data() + k, m); k += m; } }
		if (out && !in && (big || s.coin())) got = readAll(*pr->getStdOut(), c);
		try { pr->waitForFinish(); } catch (const vmime::exceptions::system_error&) { threw = true; }
		if (out && got.empty()) got = readAll(*pr->getStdOut(), c); }
	c.nontrivial(); c.label("child process, flags " + std::to_string(flags)); CHECK_EQ(threw, status != 0, "waitForFinish() throws, exit status " + std::to_string(status)); if (!out) CHECK(slurp(dir + "/out", got)); CHECK_MSG(got == expect, "output: got " << got.size() << " bytes " << pbt::show(got.substr(0, 200)) << " instead of " << expect.size() << " bytes " << pbt::show(expect.substr(0, 200)));
	sigprocmask(SIG_SETMASK, nullptr, &m1); CHECK_MSG(!memcmp(&m0, &m1, 8), "the child process changed the signal mask"); CHECK_EQ(openFds(), fds, "open files"); CHECK_MSG(waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "a child process remains"); (void) stop;
}
static void run(Source& s, Ctx& c) {
	std::string dir = pbt::scratchDir() + "/p" + std::to_string(getpid()); if (mkdir(dir.c_str(), 0700) && errno != EEXIST) throw std::runtime_error("mkdir " + dir); struct guard { std::string d; ~guard() { wipe(d); } } gd{ dir };
	if (s.oneIn(4)) childCase(s, c, dir); else sendCase(s, c, dir);
}
static void init() {
	installPlatform(); struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onUsr; sigaction(SIGUSR1, &a, nullptr); signal(SIGPIPE, SIG_DFL); signal(SIGCHLD, SIG_DFL);
}
Property makeProperty() {
	Property p; p.id = "C33"; p.run = run; p.quick = 3000; p.thorough = 60000; p.init = init; p.caseCpuSeconds = 20;
	p.rule = "a program was run, or should have been, with generated arguments and data"; p.assumptions = { "the program is a shell script which records what it gets; it does not read past the end of its input", "addresses without control characters, and without \"=?\" (which a header needs encoded)", "a program which succeeds without reading everything may be reported either way" };
	return p;
}
