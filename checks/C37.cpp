// C37: the sockets of the posix platform: the bytes of a TCP connection, both ways, its end, its peer, and time-outs.
// FLAVOURS: main
#include "common.hpp"
#include "vmime/net/socket.hpp"
#include "vmime/net/defaultTimeoutHandler.hpp"
#include "vmime/utility/inputStreamSocketAdapter.hpp"
#include "vmime/utility/outputStreamSocketAdapter.hpp"
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/sockios.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
namespace vn = vmime::net; using vmime::shared_ptr;
typedef vmime::exceptions::socket_exception sockEx;
static unsigned openFds() { unsigned n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static void onUsr(int) { }
struct ticks { // (not while a name is resolved: gai_suspend() of glibc leaves its stack frame in a list when a signal arrives as the request ends)
	 timer_t t; bool on = false; void start() { if (on) return; on = true; struct sigevent e; memset(&e, 0, sizeof e); e.sigev_notify = SIGEV_SIGNAL; e.sigev_signo = SIGUSR1; timer_create(CLOCK_MONOTONIC, &e, &t); struct itimerspec i; memset(&i, 0, sizeof i); i.it_value.tv_nsec = i.it_interval.tv_nsec = 150000; timer_settime(t, 0, &i, nullptr); } void stop() { if (on) timer_delete(t); on = false; } ~ticks() { stop(); } };
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const double PATIENCE = 20;  // seconds for the kernel to deliver what was sent
struct hook : vn::timeoutHandler { std::function<void()> act; unsigned polls = 0, limit = 0, resets = 0, handled = 0, goOn = 0; bool due = false, aborted = false; // limit: polls until the time is over, 0: never; goOn: how often the time is prolonged
	bool isTimeOut() { CHECK_MSG(!due, "isTimeOut() again though neither handleTimeOut() nor resetTimeOut() was called"); CHECK_MSG(!aborted, "the handler is asked again after it refused to continue"); ++polls; if (act) act(); if (limit && polls >= limit) { due = true; return true; } return false; }
	void resetTimeOut() { ++resets; polls = 0; due = false; needReset = false; } bool needReset = false;
	bool handleTimeOut() { CHECK_MSG(due, "handleTimeOut() though the time is not over"); ++handled; due = false; if (goOn) { --goOn; needReset = true; return true; } aborted = true; return false; }
	void arm(unsigned l, unsigned g) { limit = l; goOn = g; polls = 0; due = aborted = needReset = false; handled = 0; } };
static int family(const std::string& a) { return a.find(':') != std::string::npos ? AF_INET6 : AF_INET; }
static socklen_t fill(sockaddr_storage& st, const std::string& a, unsigned port) { memset(&st, 0, sizeof st); if (family(a) == AF_INET6) { auto p = (sockaddr_in6*) &st; p->sin6_family = AF_INET6; p->sin6_port = htons(port); inet_pton(AF_INET6, a.c_str(), &p->sin6_addr); return sizeof *p; } auto p = (sockaddr_in*) &st; p->sin_family = AF_INET; p->sin_port = htons(port); inet_pton(AF_INET, a.c_str(), &p->sin_addr); return sizeof *p; }
static int bound(const std::string& a, bool doListen, unsigned& port, int backlog = 16, int rcvbuf = 0) { int f = socket(family(a), SOCK_STREAM | SOCK_CLOEXEC, 0); if (f < 0) return -1; if (rcvbuf) setsockopt(f, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf); sockaddr_storage st; socklen_t n = fill(st, a, 0); if (bind(f, (sockaddr*) &st, n) || (doListen && listen(f, backlog))) { close(f); return -1; } n = sizeof st; getsockname(f, (sockaddr*) &st, &n); port = ntohs(family(a) == AF_INET6 ? ((sockaddr_in6*) &st)->sin6_port : ((sockaddr_in*) &st)->sin_port); fcntl(f, F_SETFL, O_NONBLOCK); return f; }
static bool have6() { static int h = -1; if (h < 0) { unsigned p; int f = bound("::1", true, p); h = f >= 0; if (f >= 0) close(f); } return h; }
static std::string nameOf(const std::string& a) { sockaddr_storage st; socklen_t n = fill(st, a, 0); char h[NI_MAXHOST + 1]; if (!getnameinfo((sockaddr*) &st, n, h, sizeof h, nullptr, 0, NI_NAMEREQD)) return h; return a; }
static void peerName(const std::string& n, const std::string& host) { CHECK_MSG(n == host || (host != "localhost" && n == nameOf(host)), "name of the peer of a connection to " << host << ": " << pbt::show(n)); }
// one connection, seen from the peer
struct peer { int fd = -1; std::string got, sent; bool eof = false, reset = false, fin = false, rst = false;
	~peer() { if (fd >= 0) close(fd); }
	bool accept(int l) { double e = now() + PATIENCE; while ((fd = ::accept4(l, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC)) < 0) { if (now() > e) return false; struct pollfd p = { l, POLLIN, 0 }; poll(&p, 1, 100); } int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return true; }
	bool drain() { if (fd < 0) return false; static char b[262144]; bool any = false; ssize_t n; while ((n = recv(fd, b, sizeof b, 0)) > 0) { got.append(b, n); any = true; } if (n == 0) eof = true; else if (errno == ECONNRESET) reset = true; return any; }
	bool write(const std::string& d) { ssize_t n = ::send(fd, d.data(), d.size(), MSG_NOSIGNAL); if (n > 0) sent.append(d, 0, n); return n == (ssize_t) d.size(); }
	// waits until everything that can arrive has arrived in the kernel of the other side
	void settle() { if (fd < 0) return; double e = now() + PATIENCE; for (int q ; now() < e ; ) { q = 0; ioctl(fd, SIOCOUTQ, &q); struct tcp_info ti; socklen_t n = sizeof ti; memset(&ti, 0, sizeof ti); getsockopt(fd, IPPROTO_TCP, TCP_INFO, &ti, &n); if (!q && (!fin || ti.tcpi_state == 5 || ti.tcpi_state == 7 || ti.tcpi_state == 6 || ti.tcpi_state == 8)) return; usleep(200); } throw pbt::Discard(); } };
static std::string around(const std::string& a, const std::string& b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; std::ostringstream o; o << a.size() << " / " << b.size() << " bytes, first difference at " << k << ": " << pbt::show(a.substr(k, 40)) << " / " << pbt::show(b.substr(k, 40)); return o.str(); }
static void connectTo(vn::socket& sk, const std::string& host, unsigned port) { try { sk.connect(host, port); } catch (const vmime::exception& e) { std::string m; for (const vmime::exception* x = &e ; x ; x = x->other()) m += std::string(x->what()) + ";"; FAIL("connect() to a listening peer fails: " << m); } }
static void sockCase(Source& s, Ctx& c) {
	const unsigned fds0 = openFds(); { ticks tk; bool withTicks = s.oneIn(8);
	std::vector<std::string> hosts = { "127.0.0.1", "127.0.0.1", "localhost", "127.1.2.3" }; if (have6()) { hosts.push_back("::1"); hosts.push_back("::1"); } std::string host = s.pick(hosts), addr = host == "localhost" ? "127.0.0.1" : host; unsigned port = 0, deadPort = 0; int L = bound(addr, true, port, 16, s.coin() ? 0 : 1 << (12 + (int) s.draw(4))), D = bound(addr, false, deadPort); if (L < 0 || D < 0) { if (L >= 0) close(L); if (D >= 0) close(D); throw pbt::Discard(); }
	struct closer { int a, b; ~closer() { close(a); close(b); } } cl = { L, D };
	bool handled = !s.oneIn(4); auto th = handled ? vmime::make_shared<hook>() : shared_ptr<hook>(); auto sk = handled ? vmime::platform::getHandler()->getSocketFactory()->create(th) : vmime::platform::getHandler()->getSocketFactory()->create(); CHECK(sk->getTimeoutHandler() == th); std::unique_ptr<peer> P; std::vector<std::unique_ptr<peer>> old; std::string sentAll, gotAll; bool open = false, unknownSent = false; // unknownSent: a sendRaw() was cut short by a time-out
	NOTE(c, "host " << host << (handled ? ", time-out handler" : "") << (withTicks ? ", with signals" : "")); c.mix(host + std::to_string(handled)); 
	auto closedNow = [&](const char* when) { // the socket has no connection
		CHECK_MSG(!sk->isConnected(), "isConnected() " << when); auto ends = [&](const char* what, std::function<void()> f) { double e = now() + PATIENCE; bool t = false; do { try { f(); } catch (const sockEx&) { t = true; } } while (!t && now() < e && (!th || !th->aborted)); CHECK_MSG(t, what << " " << when << " does not fail"); };
		if (th) th->arm(0, 0); byte_t b[10]; switch (s.draw(4)) { case 0: ends("send()", [&] { sk->send(std::string("x")); }); break; case 1: { bool t = false; try { sk->receiveRaw(b, 10); } catch (const sockEx&) { t = true; } CHECK_MSG(t, "receiveRaw() " << when << " does not fail"); break; } case 2: ends("getPeerAddress()", [&] { sk->getPeerAddress(); }); break; case 3: ends("getPeerName()", [&] { sk->getPeerName(); }); break; default: ends("sendRawNonBlocking()", [&] { sk->sendRawNonBlocking(reinterpret_cast<const byte_t*>("x"), 1); }); } };
	auto pendingIn = [&] { return P ? P->sent.size() - gotAll.size() : 0; };
	auto checkOld = [&](peer& p, const std::string& sent, bool partial, bool clean) { double e = now() + PATIENCE; while (!p.eof && !p.reset && now() < e) { p.drain(); if (!p.eof && !p.reset) usleep(500); } CHECK_MSG(p.eof || p.reset, "the peer does not see that the connection was closed"); if (partial || p.reset || !clean) CHECK_MSG(p.got.size() <= sent.size() && !sent.compare(0, p.got.size(), p.got), "the peer got other data than was sent: " << around(p.got, sent)); else CHECK_MSG(p.got == sent, "the peer did not get what was sent before the connection was closed: " << around(p.got, sent)); };
	auto leave = [&](bool justDropped) { if (!P) return; bool clean = !pendingIn() && !P->rst && !P->fin && !unknownSent; if (P->fd >= 0) checkOld(*P, sentAll, unknownSent, clean); (void) justDropped; P.reset(); sentAll.clear(); gotAll.clear(); unknownSent = false; open = false; };
	unsigned ops = 3 + (unsigned) s.draw(14); for (unsigned i = 0 ; i < ops ; ++i) {
		if (th) { th->arm(0, 0); th->act = nullptr; }
		tk.stop(); if (!open) { unsigned what = (unsigned) s.weighted({ 10, 1, 1 });
			if (what == 1) { NOTE(c, "connect to a port where nobody listens"); bool t = false; std::string m; try { sk->connect(host, deadPort); } catch (const vmime::exceptions::connection_error& e) { t = true; for (const vmime::exception* x = &e ; x ; x = x->other()) m += std::string(x->what()) + ";"; } CHECK_MSG(t, "connect() to a port where nobody listens does not throw connection_error"); CHECK_MSG(m.find("ECONNREFUSED") != std::string::npos || m.find("refused") != std::string::npos, "connect() to a port where nobody listens reports " << m); closedNow("after a failed connect()"); c.label("refused"); continue; }
			if (what == 2) { NOTE(c, "not connected"); closedNow("without a connection"); c.label("not connected"); continue; }
			unsigned before = th ? th->resets : 0; connectTo(*sk, host, port); NOTE(c, "connect"); if (th) CHECK_MSG(th->resets > before, "connect() does not reset the time-out"); P.reset(new peer); if (!P->accept(L)) FAIL("connect() returned, and there is no connection"); open = true; CHECK(sk->isConnected()); CHECK_EQ(sk->getPeerAddress(), addr, "address of the peer"); if (s.oneIn(3)) peerName(sk->getPeerName(), host); c.nontrivial(); c.label("connected to " + host); continue; }
		const bool over = P->fin || P->rst; unsigned op = (unsigned) s.weighted({ 6, 6, 6, 3, 2, 2, 1, 1, 1, 2, 1, 1 }); if (withTicks && op != 10) tk.start();
		switch (op) {
		case 0: { // the peer sends
			if (over) break; std::string d = s.bulk(1 + s.sizeNear(60000, { 1, 16384, 65536 / 2 })); if (pendingIn() + d.size() > 120000) break; bool all = P->write(d); NOTE(c, "peer sends " << d.size()); if (!all) throw pbt::Discard(); c.mix(d.substr(0, 16)); break; }
		case 1: { // receive some, or all
			P->settle(); size_t avail = pendingIn(); unsigned how = (unsigned) s.draw(2); bool all = s.coin(); size_t want = all ? avail : s.draw(avail), start = gotAll.size(); NOTE(c, "receive " << (all ? "all " : "") << want << " of " << avail << (how == 0 ? " with receive()" : how == 1 ? " with receiveRaw()" : " through the stream") << (P->fin ? ", FIN" : "") << (P->rst ? ", RST" : "")); std::vector<byte_t> buf(70000); vmime::utility::inputStreamSocketAdapter in(*sk); double e = now() + PATIENCE; bool end = false;
			auto once = [&]() -> size_t { size_t n; if (how == 0) { std::string b = "old contents"; sk->receive(b); n = b.size(); CHECK_MSG(n <= buf.size(), "receive() returned " << n << " bytes"); memcpy(buf.data(), b.data(), n); } else { size_t k = 1 + s.sizeNear(69000, { 1, 4096, 16384, 65536 }); if (!all) k = std::min(k, std::max<size_t>(1, want - (gotAll.size() - start))); buf[std::min<size_t>(k, 69999)] = 0x5a; n = how == 1 ? sk->receiveRaw(buf.data(), k) : in.read(buf.data(), k); CHECK_MSG(n <= k && (k >= 69999 || buf[k] == 0x5a), "more was read than asked for"); } bool wb = sk->getStatus() & vn::socket::STATUS_WOULDBLOCK; CHECK_EQ(wb, n == 0, "STATUS_WOULDBLOCK after a read of " + std::to_string(n) + " bytes"); gotAll.append(reinterpret_cast<const char*>(buf.data()), n); CHECK_MSG(gotAll.size() <= P->sent.size() && !P->sent.compare(0, gotAll.size(), gotAll), "received other data than was sent: " << around(gotAll, P->sent)); return n; };
			unsigned before = th ? th->resets : 0; bool some = false; try { while (gotAll.size() - start < want) { if (once()) some = true; CHECK_MSG(now() < e, "data which has arrived is not received: " << gotAll.size() - start << " of " << want); } } catch (const sockEx& x) { end = true; CHECK_MSG(over, "receive fails on an open connection: " << x.what()); CHECK_MSG(P->rst, "receive fails with " << x.what() << " though " << pendingIn() << " bytes which were sent before the end are left"); } if (some && th) CHECK_MSG(th->resets > before, "data received, and the time-out was not reset");
			if (!end && all && s.coin() && gotAll.size() == P->sent.size()) { // nothing is left
				if (over) { try { while (now() < e) CHECK_EQ(once(), (size_t) 0, "bytes received after the end"); } catch (const sockEx&) { end = true; } CHECK_MSG(end, "the end of the connection is not reported"); }
				else { size_t n = once(); CHECK_EQ(n, (size_t) 0, "bytes received though nothing was sent"); } }
			if (end) { c.label(P->rst ? "reset" : "end of data"); CHECK_MSG(!sk->isConnected(), "isConnected() after the end was reported"); } break; }
		case 2: { // the client sends
			if (P->rst) { NOTE(c, "send after a reset"); double e = now() + PATIENCE; bool t = false; try { while (now() < e && !t) sk->send(std::string(1000, 'x')); } catch (const sockEx&) { t = true; } CHECK_MSG(t, "send() after a reset does not fail"); unknownSent = true; break; }
			size_t n = handled && s.oneIn(5) ? 500000 + s.draw(3) * 3000000 + s.draw(1000000) : s.sizeNear(20000, { 1, 4096, 16384 }); std::string d = s.bulk(n); unsigned how = (unsigned) s.draw(3); if (P->fd >= 0 && !handled) { double e = now() + PATIENCE; while (P->got.size() < sentAll.size() && now() < e) P->drain(); } bool stall = th && n > 3000000 && s.coin(); if (how == 3) { size_t z; while ((z = d.find('\0')) != std::string::npos && d.size() < 30000) d[z] = 'z'; if (d.find('\0') != std::string::npos) how = 0; } NOTE(c, "send " << d.size() << " bytes" << (stall ? ", the peer does not read" : "")); c.mix(d.substr(0, 16)); unsigned slow = (unsigned) s.draw(3), k = 0; unsigned before = th ? th->resets : 0;
			if (th) { if (stall) th->arm(1 + (unsigned) s.draw(4), (unsigned) s.draw(2)); else { bool prolong = s.oneIn(3); th->arm(prolong ? 2 : 0, 1000); th->act = [&, slow] { if (k++ >= slow) P->drain(); }; } }
			bool timedOut = false; try { switch (how) { case 0: sk->send(d); break; case 1: sk->sendRaw(reinterpret_cast<const byte_t*>(d.data()), d.size()); break; case 2: { vmime::utility::outputStreamSocketAdapter out(*sk); out.write(d.data(), d.size()); out.flush(); break; } default: sk->send(d.c_str()); } } catch (const vmime::exceptions::operation_timed_out&) { timedOut = true; } catch (const sockEx& x) { FAIL("send fails on an open connection: " << x.what()); }
			if (th) { th->act = nullptr; CHECK_EQ(timedOut, th->aborted, "operation_timed_out, and the answer of the time-out handler"); if (!timedOut) CHECK_MSG(d.empty() || th->resets > before, "data sent, and the time-out was not reset"); } sentAll += d; P->drain(); CHECK_MSG(P->got.size() <= sentAll.size() && !sentAll.compare(0, P->got.size(), P->got), "the peer got other data than was sent: " << around(P->got, sentAll));
			if (timedOut) { c.label("send: timed out"); sk->disconnect(); unknownSent = true; checkOld(*P, sentAll, true, false); P.reset(); sentAll.clear(); gotAll.clear(); unknownSent = false; open = false; break; } c.label(n >= 500000 ? "large send" : "send");
			if (s.coin()) { double e = now() + PATIENCE; while (P->got.size() < sentAll.size() && now() < e) { if (!P->drain()) usleep(200); } CHECK_MSG(P->got == sentAll, "the peer does not get what was sent: " << around(P->got, sentAll)); } break; }
		case 3: { // as much as fits
			if (P->rst) break; size_t n = 1 + s.sizeNear(200000, { 16384, 65536 }); std::string d = s.bulk(n); if (s.coin()) P->drain(); unsigned rounds = s.oneIn(5) ? 80 : 1, q = 0; size_t k; do { k = sk->sendRawNonBlocking(reinterpret_cast<const byte_t*>(d.data()), d.size()); bool wb = sk->getStatus() & vn::socket::STATUS_WOULDBLOCK; NOTE(c, "sendRawNonBlocking " << n << ": " << k); CHECK_MSG(k <= n, "more sent than given"); CHECK_EQ(wb, k == 0, "STATUS_WOULDBLOCK after sendRawNonBlocking() of " + std::to_string(k) + " bytes"); sentAll.append(d, 0, k); } while (k && ++q < rounds); c.label(k == n ? "non-blocking send: all" : k ? "non-blocking send: part" : "non-blocking send: nothing");
			if (s.oneIn(3)) { double e = now() + PATIENCE; while (P->got.size() < sentAll.size() && now() < e) { if (!P->drain()) usleep(200); } CHECK_MSG(P->got == sentAll, "the peer does not get what was sent: " << around(P->got, sentAll)); } break; }
		case 4: { // wait
			P->settle(); int ms = (int) s.draw(30); bool due = pendingIn() || over, rd = s.coin(); double t0 = now(), e = t0 + PATIENCE; bool r; if (rd) { r = sk->waitForRead(ms); double t = now() - t0; if (!due) { CHECK_MSG(!r, "waitForRead() though nothing was sent"); CHECK_MSG(withTicks || t * 1000 >= ms - 10, "waitForRead(" << ms << ") returned false after " << t * 1000 << " ms"); } else { while (!r && now() < e) r = sk->waitForRead(ms); CHECK_MSG(r, "waitForRead() does not see data which has arrived"); } } else { P->drain(); do { r = sk->waitForWrite(ms); P->drain(); } while (!r && now() < e); CHECK_MSG(r, "waitForWrite() on an idle connection"); } NOTE(c, (rd ? "waitForRead " : "waitForWrite ") << ms << ": " << r); break; }
		case 5: { // is it still there?
			P->settle(); double e = now() + PATIENCE; bool expect = pendingIn() ? true : !over, r = sk->isConnected(); bool any = P->rst && pendingIn(); if (P->rst && !any) expect = false; while (r != expect && !expect && now() < e) { usleep(500); r = sk->isConnected(); } if (!any) CHECK_EQ(r, expect, std::string("isConnected(), ") + (P->rst ? "after a reset" : P->fin ? "after the peer has ended the connection" : "on an open connection") + ", bytes left " + std::to_string(pendingIn())); NOTE(c, "isConnected: " << r); if (!P->rst) { CHECK_EQ(sk->getPeerAddress(), addr, "address of the peer"); } break; }
		case 6: { // the peer ends its side
			if (over) break; P->drain(); bool half = s.coin(); NOTE(c, "peer: " << (half ? "shutdown" : "shutdown, reads on")); shutdown(P->fd, SHUT_WR); P->fin = true; c.label("peer: FIN"); break; }
		case 7: { // the peer breaks the connection
			if (P->rst) break; P->drain(); NOTE(c, "peer: reset"); struct linger l = { 1, 0 }; setsockopt(P->fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(P->fd); P->fd = -1; P->rst = true; c.label("peer: RST"); break; }
		case 8: { NOTE(c, "disconnect"); P->drain(); sk->disconnect(); leave(true); if (s.coin()) closedNow("after disconnect()"); if (s.oneIn(3)) sk->disconnect(); c.label("disconnect"); break; }
		case 9: { // nothing comes, and the time is over
			if (!th || over || pendingIn()) break; unsigned lim = 1 + (unsigned) s.draw(8), go = (unsigned) s.draw(2), g0 = go; bool wait = s.oneIn(3), late = s.oneIn(3); std::string d = "late answer"; th->arm(lim, go); unsigned k = 0, when = (unsigned) s.draw(12); bool sent = false; if (late) th->act = [&] { if (++k > when && !sent) { sent = true; P->write(d); P->settle(); } }; bool timedOut = false; size_t n = 0; double e = now() + PATIENCE; byte_t b[100]; try { while (!n && now() < e) { if (wait) { if (sk->waitForRead(1000)) break; } else n = sk->receiveRaw(b, 100); } } catch (const vmime::exceptions::operation_timed_out&) { timedOut = true; } catch (const sockEx& x) { FAIL("receive fails on an open connection: " << x.what()); } th->act = nullptr; gotAll.append(reinterpret_cast<const char*>(b), n); NOTE(c, "silence: limit " << lim << ", prolonged " << g0 << (late ? ", late answer at poll " + std::to_string(when) : "") << ": " << (timedOut ? "timed out" : "answer")); CHECK_EQ(timedOut, th->aborted, "operation_timed_out, and the answer of the time-out handler"); CHECK_MSG(timedOut || sent, "no time-out, and no answer"); CHECK_MSG(!P->sent.compare(0, gotAll.size(), gotAll), "received other data than was sent"); c.label(timedOut ? "receive: timed out" : "late answer"); break; }
		case 10: { NOTE(c, "connect again"); std::unique_ptr<peer> o(std::move(P)); std::string so = sentAll; bool pu = unknownSent, clean = o->sent.size() == gotAll.size() && !o->rst && !o->fin; sentAll.clear(); gotAll.clear(); unknownSent = false; open = false; o->drain(); bool ok = true; if (s.oneIn(4)) { try { sk->connect(host, deadPort); ok = false; } catch (const vmime::exceptions::connection_error&) { } CHECK_MSG(ok, "connect() to a port where nobody listens"); closedNow("after a failed connect()"); } else { connectTo(*sk, host, port); P.reset(new peer); if (!P->accept(L)) FAIL("connect() returned, and there is no connection"); open = true; } if (o->fd >= 0) checkOld(*o, so, pu, clean); c.label("connect again"); break; }
		default: { if (!P->rst) { CHECK_EQ(sk->getPeerAddress(), addr, "address of the peer"); peerName(sk->getPeerName(), host); } CHECK(sk->getBlockSize() > 0); break; }
		}
	}
	if (th) { th->arm(0, 0); th->act = nullptr; } if (P) P->drain(); sk.reset(); leave(false); }
	double e = now() + PATIENCE; while (openFds() != fds0 && now() < e) usleep(1000); CHECK_EQ(openFds(), fds0, "open files at the end"); }
// a host which does not answer
static void fullCase(Source& s, Ctx& c) { unsigned port; int L = bound("127.0.0.1", true, port, 0); if (L < 0) throw pbt::Discard(); struct closer { int a; ~closer() { close(a); } } cl = { L }; std::vector<int> f; bool blocked = false; for (int i = 0 ; i < 5 && !blocked ; ++i) { int x = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); f.push_back(x); sockaddr_storage st; socklen_t n = fill(st, "127.0.0.1", port); int r = connect(x, (sockaddr*) &st, n); struct pollfd p = { x, POLLOUT, 0 }; blocked = r && !(poll(&p, 1, 300) > 0); } bool thrown = false, other = false; auto th = vmime::make_shared<hook>(); th->arm(1, (unsigned) s.draw(1)); if (blocked) { auto sk = vmime::platform::getHandler()->getSocketFactory()->create(th); try { sk->connect("127.0.0.1", port); } catch (const vmime::exceptions::connection_error&) { thrown = true; } catch (const vmime::exceptions::operation_timed_out&) { thrown = true; } catch (const std::exception&) { other = true; } CHECK_MSG(thrown && !other, "connect() to a host which does not answer does not fail"); CHECK_MSG(!th->needReset, "time prolonged, and not reset"); CHECK(!sk->isConnected()); c.nontrivial(); c.label("connect: timed out"); } for (int x : f) close(x); if (!blocked) throw pbt::Discard(); }
// the handler which is used when the application gives none
static void defaultCase(Source& s, Ctx& c) { vn::defaultTimeoutHandlerFactory f; auto h = f.create(); time_t t0 = time(nullptr); bool r = h->isTimeOut(); CHECK_MSG(!r || time(nullptr) - t0 >= 30, "the default time-out is over at once"); h->resetTimeOut(); CHECK(!h->handleTimeOut()); (void) s; c.label("default handler"); }
static void run(Source& s, Ctx& c) { switch (s.weighted({ 400, 2, 1 })) { case 0: sockCase(s, c); break; case 1: defaultCase(s, c); break; default: fullCase(s, c); } }
Property makeProperty() { Property p; p.id = "C37"; p.run = run; p.rule = "a case counts when at least one TCP connection was made between the socket and a peer (or a connection attempt was left unanswered)"; p.quick = 1500; p.thorough = 40000; p.mutatePct = 10;
	p.init = [] { installPlatform(); struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onUsr; sigaction(SIGUSR1, &a, nullptr); signal(SIGPIPE, SIG_DFL); have6(); { auto w = vmime::platform::getHandler()->getSocketFactory()->create(); try { unsigned pt; int d = bound("127.0.0.1", false, pt); try { w->connect("127.0.0.1", pt); } catch (...) { } close(d); } catch (...) { } } };
	p.assumptions = { "the loopback network works; IPv6 cases only where ::1 can be bound", "a delivery within one kernel takes less than 20 s" }; return p; }
