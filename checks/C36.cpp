// C36: faults at any point of any SMTP, POP3 or IMAP session: the same session is run twice against the same model server, without and with a fault.
// FLAVOURS: main alt
// LIBS: -lgnutls
#include "tlspeer.hpp"
#include "imapgen.hpp"
#include "smtppeer.hpp"
#include "pop3peer.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/net/folder.hpp"
#include "vmime/net/folderStatus.hpp"
#include "vmime/net/message.hpp"
#include "vmime/net/messageSet.hpp"
#include "vmime/net/fetchAttributes.hpp"
#include "vmime/net/imap/IMAPFolder.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
#include "vmime/security/cert/X509Certificate.hpp"
#include "vmime/security/cert/defaultCertificateVerifier.hpp"
namespace vn = vmime::net; using vmime::shared_ptr;
enum faultKind { F_NONE, F_CLOSE, F_STALL, F_GARBAGE, F_CORRUPT, F_SENDFAIL, F_NOTIFY, F_LATE, F_USER, F_KINDS };
static const char* faultName[] = { "none", "close", "stall", "garbage", "corruption", "send failure", "close_notify", "silence, then late answers", "stream given by the user" };
// the network between the client and all the servers of a run
struct link36 {
	uint64_t rd = 0, sd = 0, ra = 0, rb = 0, sb = 0, ab = 0, us = 0, ub = 0;   // bytes received, sent, and of application data received within TLS; at the start of the operation
	faultKind kind = F_NONE; size_t at = 0; bool armed = false, fired = false, dead = false, stalled = false, deadSends = false, tailStalls = false, hung = false, plainSockets = false /* the time-out is left to the client */; std::string tail; unsigned char flip = 1; unsigned idle = 0, opened = 0, closedN = 0;
	unsigned thLimit = 4, thGrace = 0, hangs = 0, gen = 0;
	void begin() { rb = rd; sb = sd; ab = ra; ub = us; }
	void user(size_t n) { if (armed && kind == F_USER && us - ub + n > at) { fired = true; armed = false; throw vmime::exceptions::system_error("user stream"); } us += n; }
	void poll() { if (++idle > 20000) { hung = true; if (++hangs > 50) { fprintf(stderr, "the client waits for ever\n"); abort(); } throw vmime::exceptions::operation_timed_out(); } }
};
struct userOut : vmime::utility::outputStream { link36& l; std::string& s; userOut(link36& k, std::string& x) : l(k), s(x) { } void writeImpl(const byte_t* d, const size_t n) { l.user(n); s.append((const char*) d, n); } void flush() { } };
struct userIn : vmime::utility::inputStream { link36& l; vmime::utility::inputStreamStringAdapter is; userIn(link36& k, const std::string& x) : l(k), is(x) { } bool eof() const { return is.eof(); } void reset() { is.reset(); } size_t read(byte_t* const d, const size_t n) { size_t r = is.read(d, n); l.user(r); return r; } size_t skip(const size_t n) { return is.skip(n); } };
struct th36 : vn::timeoutHandler { link36& l; unsigned n = 0, g = 0; explicit th36(link36& x) : l(x) { } bool isTimeOut() { l.poll(); return ++n > l.thLimit; } void resetTimeOut() { n = 0; } bool handleTimeOut() { return g++ < l.thGrace; } };
struct thf36 : vn::timeoutHandlerFactory { link36& l; explicit thf36(link36& x) : l(x) { } shared_ptr<vn::timeoutHandler> create() { return vmime::make_shared<th36>(l); } };
class sock36 : public vn::socket { // behaves as posixSocket does
public:
	sock36(link36& k, const std::shared_ptr<netPeer>& p, const shared_ptr<vn::timeoutHandler>& t) : L(k), P(p), m_th(t), m_gen(k.gen) { }
	~sock36() { disconnect(); }
	void connect(const vmime::string& a, const vmime::port_t port) { if (L.dead) throw vmime::exceptions::connection_error("refused"); m_con = true; ++L.opened; P->onConnect(a, (int) port); }
	void disconnect() { if (m_con) ++L.closedN; m_con = false; }
	bool isConnected() const { return m_con && !dead() && !(P->closed && P->out.empty()); }
	bool waitForRead(const int ms = 30000) { return wait(ms); }
	bool waitForWrite(const int = 30000) { return true; }
	void receive(vmime::string& b) { byte_t x[65536]; size_t n = receiveRaw(x, sizeof x); b.assign(reinterpret_cast<const char*>(x), n); }
	size_t receiveRaw(byte_t* b, const size_t count) {
		m_st = 0; bool eof = false; if (!wait(50, &eof)) { m_st = STATUS_WOULDBLOCK; return 0; } if (eof || !m_con) throw vmime::exceptions::socket_exception("ENOTCONN: not connected");
		size_t n = std::min(count, avail()); memcpy(b, P->out.data(), n); P->out.erase(0, n); if (L.armed && L.kind == F_CORRUPT && !L.fired && L.rd - L.rb + n > L.at) { b[L.at - (L.rd - L.rb)] ^= L.flip; L.fired = true; L.armed = false; } L.rd += n; if (netSocket::wire()) fprintf(stderr, "S: %s\n", std::string(reinterpret_cast<const char*>(b), n).c_str());
		if (m_th) m_th->resetTimeOut(); L.idle = 0; return n;
	}
	void send(const vmime::string& b) { sendRaw(reinterpret_cast<const byte_t*>(b.data()), b.size()); }
	void send(const char* s) { send(vmime::string(s)); }
	void sendRaw(const byte_t* b, const size_t count) {
		m_st = 0; if (!m_con) throw vmime::exceptions::socket_exception("EBADF: bad descriptor"); if (dead() && L.deadSends) throw vmime::exceptions::socket_exception("EPIPE: broken pipe");
		size_t n = count; bool fail = false; if (L.armed && L.kind == F_SENDFAIL && L.sd - L.sb + n > L.at) { n = L.at - (L.sd - L.sb); fail = true; }
		std::string d(reinterpret_cast<const char*>(b), n); if (netSocket::wire()) fprintf(stderr, "C: %s\n", d.c_str()); L.sd += n; if (n && !P->closed && !dead() && (!L.stalled || L.kind == F_LATE)) { P->in += d; P->onData(P->in); }
		if (fail) { L.fired = L.dead = L.deadSends = true; L.armed = false; throw vmime::exceptions::socket_exception("ECONNRESET: connection reset by peer"); } if (m_th) m_th->resetTimeOut();
	}
	size_t sendRawNonBlocking(const byte_t* b, const size_t count) { sendRaw(b, count); return count; }
	size_t getBlockSize() const { return 16384; }
	unsigned int getStatus() const { return m_st; }
	const vmime::string getPeerName() const { return "server.example"; }
	const vmime::string getPeerAddress() const { return "192.0.2.1"; }
	shared_ptr<vn::timeoutHandler> getTimeoutHandler() { return m_th; }
	void setTracer(const shared_ptr<vn::tracer>&) { }
	shared_ptr<vn::tracer> getTracer() { return vmime::null; }
private:
	size_t avail() { // how much can be read now
		if (L.armed && (L.kind == F_CLOSE || L.kind == F_STALL || L.kind == F_LATE || L.kind == F_GARBAGE) && L.rd - L.rb >= L.at && !P->out.empty()) { L.fired = true; L.armed = false; if (L.kind == F_CLOSE) L.dead = true; else if (L.kind == F_STALL || L.kind == F_LATE) L.stalled = true; else { P->out = L.tail; P->closed = !L.tailStalls; m_tail = true; if (L.tailStalls) L.stalled = true; else L.dead = true; } }
		if (m_tail) { } else if (dead() || L.stalled) return 0;
		size_t n = P->out.size(); if (L.armed && (L.kind == F_CLOSE || L.kind == F_STALL || L.kind == F_LATE || L.kind == F_GARBAGE)) n = std::min<size_t>(n, L.at - (L.rd - L.rb));
		if (n && !P->cuts.empty()) { size_t k = P->cuts[P->ci % P->cuts.size()]; n = std::min(n, k ? k : 1); } return n;
	}
	bool wait(int ms, bool* eof = nullptr) {
		if (!m_con) throw vmime::exceptions::socket_exception("EBADF: bad descriptor");
		for (int i = 0 ; i <= ms / 10 ; ++i) {
			bool block = !P->cuts.empty() && P->cuts[P->ci % P->cuts.size()] == 0 && m_blocked++ < 2; size_t n = avail(); if (!block) { if (n) { if (eof) { m_blocked = 0; ++P->ci; } return true; } if (m_tail ? P->closed : dead() || (P->closed && !L.stalled)) { if (eof) *eof = true; if (++L.idle > 20000) L.poll(); return true; } }
			if (!m_th || L.plainSockets) L.poll(); else if (m_th->isTimeOut()) { if (!m_th->handleTimeOut()) throw vmime::exceptions::operation_timed_out(); m_th->resetTimeOut(); }
			if (block || L.plainSockets) break; }
		return false;
	}
	link36& L; std::shared_ptr<netPeer> P; shared_ptr<vn::timeoutHandler> m_th; bool m_con = false, m_tail = false; unsigned m_st = 0, m_blocked = 0, m_gen; bool dead() const { return L.dead || m_gen != L.gen; }
};
struct sf36 : vn::socketFactory { link36& l; std::function<std::shared_ptr<netPeer>()> mk; sf36(link36& x, std::function<std::shared_ptr<netPeer>()> f) : l(x), mk(f) { } shared_ptr<vn::socket> create() { return create(vmime::null); } shared_ptr<vn::socket> create(const shared_ptr<vn::timeoutHandler>& t) { return vmime::make_shared<sock36>(l, mk(), t); } };
// ---- the plan of a session
struct op36 { int k = 0; unsigned a = 0, b = 0; bool f = false; };
struct mail36 { std::string from; std::vector<std::string> to; std::string raw; };
struct plan36 {
	int proto = 0; bool implicit = false, handler = true, plainSockets = false; std::vector<size_t> cuts; unsigned thLimit = 4, thGrace = 0; std::vector<op36> ops;
	std::vector<mail36> mails; std::set<std::string> ext; std::string ehlo; bool multi = false, enh = false, ehloOk = true;
	std::vector<std::string> msgs, uids; bool uidl = true, top = true, capa = true, extra = false, apop = false; std::string stamp;
	imapServer imap;
};
static const char* opName(int proto, int k) {
	static const char* n0[] = { "connect", "send", "noop", "reconnect" }; static const char* n1[] = { "connect", "open", "count", "getMessage", "fetchMessages", "extract", "delete", "status", "noop", "close", "reconnect", "header", "size", "getMessages" };
	static const char* n2[] = { "connect", "open", "count", "getMessages", "fetchMessages", "extract", "setFlags", "status", "noop", "close", "reconnect", "header", "addMessage", "copyMessages", "expunge", "search", "parsed", "create", "destroy", "rename", "exists", "list", "fetchMessage", "extractPart", "deleteMessages", "changed" }; return proto == 0 ? n0[k] : proto == 1 ? n1[k] : n2[k];
}
static bool exempt(int proto, int k) { return (proto == 1 && k == 9) || (proto == 2 && k == 9); }
static void copyServer(imapServer& d, const imapServer& t) {
	d.sep = t.sep; d.nilSep = t.nilSep; d.condstore = t.condstore; d.uidplus = t.uidplus; d.children = t.children; d.specialUse = t.specialUse; d.capsInGreeting = t.capsInGreeting; d.uidInFetch = t.uidInFetch; d.preauth = t.preauth; d.literals = t.literals; d.junk = t.junk; d.lowerNames = t.lowerNames; d.quotedBody = t.quotedBody; d.flagsOnFetch = t.flagsOnFetch; d.alwaysExists = t.alwaysExists; d.rs = t.rs; d.validity = t.validity; d.known = t.known;
	for (auto& b : t.boxes) { auto n = std::make_shared<imapBox>(*b.second); n->msgs.clear(); for (auto& m : b.second->msgs) n->msgs.push_back(std::make_shared<imapMsg>(*m)); d.boxes[b.first] = n; }
}
static std::string digest36(const std::string& x) { std::hash<std::string> h; return std::to_string(x.size()) + "#" + std::to_string(h(x)); }
// ---- one run of a plan: the servers of the run, and the client
struct servers36 { const plan36& p; std::shared_ptr<pop3Mailbox> box; std::unique_ptr<imapServer> imap; std::vector<std::shared_ptr<netPeer>> conns; std::vector<std::shared_ptr<smtpPeer>> smtp; std::vector<std::shared_ptr<tlsPeer>> tls; link36* L = nullptr;
	explicit servers36(const plan36& x) : p(x) { box = std::make_shared<pop3Mailbox>(); box->msgs = p.msgs; box->uids = p.uids; imap.reset(new imapServer); copyServer(*imap, p.imap); }
	~servers36() { tls.clear(); smtp.clear(); conns.clear(); }
	std::shared_ptr<netPeer> peer() {
		std::shared_ptr<netPeer> a; if (p.proto == 0) { auto s = std::make_shared<smtpPeer>(); s->ext = p.ext; s->ehloReply = p.ehlo; s->multi = p.multi; s->enh = p.enh; s->ehlo = p.ehloOk; smtp.push_back(s); a = s; } else if (p.proto == 1) { auto s = std::make_shared<pop3Peer>(); s->box = box; s->user = "user"; s->pass = "secret"; s->uidl = p.uidl; s->top = p.top; s->capa = p.capa; s->extra = p.extra; s->apop = true; s->stamp = p.stamp; s->greetText = "ready" + (p.stamp.empty() ? "" : " " + p.stamp); s->capas = { "TOP", "UIDL" }; a = s; } else a = std::make_shared<imapPeer>(*imap);
		if (!p.implicit) { a->cuts = p.cuts; conns.push_back(a); return a; } auto t = std::make_shared<tlsPeer>(); t->app = a; t->implicit = true; t->cuts = p.cuts; t->appBudget = [this](size_t n, bool& cut) { if (L && L->armed && L->kind == F_NOTIFY) { uint64_t left = L->at - (L->ra - L->ab); if (n > left) { n = (size_t) left; cut = true; L->fired = true; L->armed = false; } } if (L) L->ra += n; return n; }; tls.push_back(t); conns.push_back(t); return t;
	}
	std::string last() const { const smtpPeer* q = nullptr; for (auto& x : smtp) if (!x->done.empty()) q = x.get(); if (!q) return ""; auto& d = q->done.back(); std::string r = d.from + ">"; for (auto& t : d.to) r += t + ","; return r + digest36(d.data); }
	size_t count() const { size_t n = 0; for (auto& s : smtp) n += s->done.size(); return n; }
};
struct client36 {
	const plan36& p; link36& L; servers36* sv; shared_ptr<vn::session> sess; shared_ptr<vn::transport> tr; shared_ptr<vn::store> st; shared_ptr<vn::service> svc; shared_ptr<vn::folder> f; std::vector<shared_ptr<vn::message>> ms;
	client36(const plan36& x, link36& l, servers36* s) : p(x), L(l), sv(s) { s->L = &l;
		static const char* protos[3][2] = { { "smtp", "smtps" }, { "pop3", "pop3s" }, { "imap", "imaps" } }; std::string pn = protos[p.proto][p.implicit], pre = std::string(p.proto == 0 ? "transport." : "store.") + pn + "."; vmime::propertySet props; props[p.proto == 0 ? "transport.protocol" : "store.protocol"] = pn; props[pre + "server.address"] = "server.example"; props[pre + "auth.username"] = "user"; props[pre + "auth.password"] = "secret"; props[pre + "options.sasl"] = false; if (p.proto == 1) props[pre + "options.apop"] = p.apop;
		sess = vn::session::create(props); if (p.proto == 0) svc = tr = sess->getTransport(); else svc = st = sess->getStore(); svc->setSocketFactory(vmime::make_shared<sf36>(L, [this]() { return sv->peer(); })); svc->setTimeoutHandlerFactory(p.handler ? vmime::make_shared<thf36>(L) : nullptr);
		if (p.implicit) { auto v = vmime::make_shared<vmime::security::cert::defaultCertificateVerifier>(); const std::string& ca = tlsCerts::get().ca; std::vector<shared_ptr<vmime::security::cert::X509Certificate>> roots; roots.push_back(vmime::security::cert::X509Certificate::import(reinterpret_cast<const byte_t*>(ca.data()), ca.size())); v->setX509RootCAs(roots); svc->setCertificateVerifier(v); }
	}
	bool isCon() { return tr ? tr->isConnected() : st->isConnected(); }
	void connect() { if (tr) tr->connect(); else st->connect(); }
	void disconnect() { if (tr) tr->disconnect(); else st->disconnect(); }
	void reset() { ms.clear(); f = nullptr; }
	std::string boxName(unsigned a, bool fresh) { static const char* n[] = { "INBOX", "a", "b", "a/sub", "nonesuch" }; if (fresh) return "new" + std::to_string(a % 3); return n[a % 5]; }
	shared_ptr<vn::folder> folder(const std::string& n) { vn::folder::path q; size_t b = 0; for ( ; ; ) { size_t e = n.find('/', b); q /= vn::folder::path::component(n.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) break; b = e + 1; } return st->getFolder(q); }
	vn::messageSet set(const op36& o) { int n = (int) (o.a % 4); size_t x = 1 + o.b % 3; return n == 0 ? vn::messageSet::byNumber(1, (size_t) -1) : n == 1 ? vn::messageSet::byNumber(x) : n == 2 ? vn::messageSet::byNumber(1, x) : vn::messageSet::byNumber(std::vector<size_t>{ 1, 3 }); }
	std::string showMsg(vn::message& m) { std::ostringstream o; o << m.getNumber() << " "; auto tryIt = [&](const char* n, const std::function<std::string()>& g) { o << n << "="; try { o << g(); } catch (const vmime::exceptions::unfetched_object&) { o << "?"; } catch (const vmime::exceptions::operation_not_supported&) { o << "-"; } o << " "; }; tryIt("uid", [&]() { return std::string(m.getUID()); }); tryIt("size", [&]() { return std::to_string(m.getSize()); }); tryIt("flags", [&]() { return std::to_string(m.getFlags()); }); tryIt("header", [&]() { return digest36(m.getHeader()->generate()); }); if (p.proto == 2) tryIt("parts", [&]() { return std::to_string(m.getStructure()->getPartCount()); }); return o.str(); }
	shared_ptr<vn::folder> need() { if (!f) throw vmime::exceptions::illegal_state("no folder"); return f; }
	shared_ptr<vn::message> msg(unsigned a) { if (ms.empty()) throw vmime::exceptions::illegal_state("no message"); return ms[a % ms.size()]; }
	std::string exec(const op36& o) {
		std::ostringstream r; if (o.k == 0) { connect(); r << "connected"; return r.str(); }
		int rec = p.proto == 0 ? 3 : 10; if (o.k == rec) { reset(); disconnect(); connect(); return "connected"; }
		if (p.proto == 0) {
			if (o.k == 1) { const mail36& m = p.mails[o.a % p.mails.size()]; vmime::mailboxList to; for (auto& t : m.to) to.appendMailbox(vmime::make_shared<vmime::mailbox>(t)); size_t n = sv->count(); if (o.f) { auto g = vmime::make_shared<vmime::message>(); g->parse(m.raw); tr->send(g, vmime::mailbox(m.from), to, nullptr, vmime::mailbox(), vn::transport::sendOptions()); } else { userIn is(L, m.raw); tr->send(vmime::mailbox(m.from), to, is, m.raw.size()); } if (sv->count() != n + 1) return "NOT DELIVERED"; r << sv->last(); } else { tr->noop(); } return r.str();
		}
		switch (o.k) {
		case 1: { reset(); f = p.proto == 1 ? st->getDefaultFolder() : folder(boxName(o.a, false)); f->open(o.f ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE); r << f->getMessageCount(); break; }
		case 2: r << need()->getMessageCount(); break;
		case 3: if (p.proto == 1) { auto m = need()->getMessage(1 + o.a % 4); ms.push_back(m); r << m->getNumber(); } else { ms = need()->getMessages(set(o)); for (auto& m : ms) r << m->getNumber() << " "; } break;
		case 13: if (p.proto == 1) { ms = need()->getMessages(set(o)); for (auto& m : ms) r << m->getNumber() << " "; break; } else { auto u = need()->copyMessages(vn::folder::path(vn::folder::path::component(o.f ? "a" : "b")), set(o)); r << "copied"; break; }
		case 4: { vn::fetchAttributes at((int) ((o.b & 1 ? vn::fetchAttributes::UID : 0) | (o.b & 2 ? vn::fetchAttributes::SIZE : 0) | (o.b & 4 ? vn::fetchAttributes::FULL_HEADER : 0) | (p.proto == 2 && (o.b & 8) ? vn::fetchAttributes::FLAGS : 0) | (p.proto == 2 && (o.b & 16) ? vn::fetchAttributes::STRUCTURE : 0) | (p.proto == 2 && (o.b & 32) ? vn::fetchAttributes::ENVELOPE : 0))); need()->fetchMessages(ms, at); for (auto& m : ms) r << showMsg(*m) << "; "; break; }
		case 22: { auto m = msg(o.a); need()->fetchMessage(m, vn::fetchAttributes(vn::fetchAttributes::FLAGS | vn::fetchAttributes::SIZE | vn::fetchAttributes::ENVELOPE | (o.f ? vn::fetchAttributes::STRUCTURE : 0))); r << showMsg(*m); break; }
		case 5: { auto m = msg(o.a); std::string g; userOut os(L, g); if (p.proto == 2 && o.b % 3 == 0) m->extract(os, nullptr, o.b % 5, 7 + o.b % 50, o.f); else m->extract(os); r << digest36(g); break; }
		case 6: if (p.proto == 1) need()->deleteMessages(set(o)); else need()->setMessageFlags(set(o), o.b & 1 ? vn::message::FLAG_SEEN : vn::message::FLAG_DELETED | vn::message::FLAG_MARKED, o.f ? vn::message::FLAG_MODE_ADD : vn::message::FLAG_MODE_REMOVE); break;
		case 7: { auto t = (p.proto == 1 ? st->getDefaultFolder() : o.f ? need() : folder(boxName(o.a, false)))->getStatus(); r << t->getMessageCount() << "/" << t->getUnseenCount(); break; }
		case 8: st->noop(); break;
		case 9: need()->close(o.f); reset(); break;
		case 11: r << showMsg(*msg(o.a)); break;
		case 12: if (p.proto == 1) { r << msg(o.a)->getSize(); } else { std::string raw = "Subject: added\r\n\r\ntext " + std::to_string(o.a) + "\r\n"; userIn is(L, raw); need()->addMessage(is, raw.size(), o.f ? vn::message::FLAG_SEEN : -1); r << "added"; } break;
		case 14: need()->expunge(); break;
		case 15: { auto g = vmime::dynamicCast<vn::imap::IMAPFolder>(need()); std::vector<shared_ptr<const vn::imap::IMAPSearchToken>> toks; toks.push_back(vn::imap::IMAPSearchTokenFactory::SUBJECT("needle")); vn::imap::IMAPSearchAttributes at(std::move(toks)); for (size_t q : g->getMessageNumbersMatchingSearchAttributes(at, nullptr)) r << q << " "; break; }
		case 16: r << digest36(msg(o.a)->getParsedMessage()->generate()); break;
		case 17: folder(boxName(o.a, true))->create(vn::folderAttributes()); break;
		case 18: folder(boxName(o.a, o.f))->destroy(); break;
		case 19: folder(boxName(o.a, o.f))->rename(vn::folder::path(vn::folder::path::component("ren" + std::to_string(o.b % 3)))); break;
		case 20: r << folder(boxName(o.a, o.f))->exists(); break;
		case 21: { std::set<std::string> n; for (auto& x : st->getRootFolder()->getFolders(o.f)) n.insert(x->getFullPath().getLastComponent().getBuffer()); for (auto& x : n) r << x << " "; break; }
		case 23: { auto m = msg(o.a); auto q = m->getStructure(); if (!q->getPartCount()) break; auto pt = q->getPartAt(0); std::string g; userOut os(L, g); m->extractPart(pt, os); r << digest36(g); break; }
		case 24: need()->deleteMessages(set(o)); break;
		default: { auto v = need()->getMessageNumbersStartingOnUID(vn::message::uid(1 + o.a % 5)); r << v.size(); break; }
		}
		return r.str();
	}
};
struct res36 { bool threw = false; std::string ex, val; uint64_t rd = 0, sd = 0, ra = 0, us = 0; };
static res36 runOp(client36& c, const op36& o) {
	res36 r; c.L.begin(); c.L.idle = 0; try { r.val = c.exec(o); } catch (const vmime::exception& e) { r.threw = true; r.ex = e.name(); r.val = "EX:" + r.ex; const vmime::exception* x = e.other(); (void) x; }
	r.rd = c.L.rd - c.L.rb; r.sd = c.L.sd - c.L.sb; r.ra = c.L.ra - c.L.ab; r.us = c.L.us - c.L.ub; return r;
}
static std::string genTail(Source& s, int proto) {
	static const std::vector<std::string> sm = { "250 ok\r\n", "250-", "354 go\r\n", "250\r\n", "2", "999 x\r\n", "-1 y\r\n", "221 bye\r\n", "421 closing\r\n", "ok\r\n", "250-a\r\n250 b\r\n", "250 5.0\r\n", "550-x\r\n550 \r\n", "250-x\r\n251 y\r\n", "99999999999999999999 z\r\n" }, po = { "+OK\r\n", "-ERR\r\n", ".\r\n", "+OK 1 2\r\n", "+OK 99999999999999999999 -1\r\n", "+", "1 1\r\n", "..\r\n", "+OK\n.\n", "-\r\n", "+ \r\n", "+OK 1\r\n", "+OK -1 -1\r\n", "+OK 1 -1\r\n.\r\n", "-1 -1\r\n", "+OK 1000 1000\r\n", "x\r\n.\r\n", "1\r\n.\r\n", "\r\n" }, im = { "* OK\r\n", "a001 OK done\r\n", "a002 OK done\r\n", "a003 BAD x\r\n", "* 1 EXPUNGE\r\n", "* 99999999999 EXISTS\r\n", "* 4 EXISTS\r\n", "* 1000 EXISTS\r\n", "* 0 EXISTS\r\n", "a003 OK [COPYUID 1 1:3 9,10,12] ok\r\n", "a002 OK [READ-ONLY] ok\r\n", "a004 NO x\r\n", "* 1 FETCH (BODYSTRUCTURE (\"text\" \"plain\" NIL NIL NIL \"7bit\" 3 1))\r\n", "* 1 FETCH (ENVELOPE (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) RFC822.SIZE 9)\r\n", "* BYE gone\r\n", "+ go\r\n", "* LIST () \"/\" x\r\n", "* 1 FETCH (FLAGS (\\Seen) UID 0)\r\n", "* 1 FETCH (BODY[] {5}\r\nab", "{999999999999}\r\n", "* CAPABILITY IMAP4rev1\r\n", "* SEARCH 1 2 99\r\n", "* FLAGS ()\r\n", "(((((", "NIL", "\"", " ", "\r\n", "* 0 FETCH ()\r\n", "* 4294967295 EXPUNGE\r\n", "* STATUS INBOX (MESSAGES 3)\r\n" };
	auto& v = proto == 0 ? sm : proto == 1 ? po : im; std::string r; unsigned n = (unsigned) s.draw(6); for (unsigned i = 0 ; i < n ; ++i) r += s.oneIn(6) ? s.bytes(12) : v[s.draw(v.size() - 1)]; if (s.oneIn(60)) r += std::string(5000 + s.draw(20000), s.pick({ "a", "(", "\n", "{", " ", "1" })[0]); return r;
}
static void run(Source& s, Ctx& c) {
	plan36 p; p.proto = (int) s.draw(2); p.implicit = s.oneIn(4); p.cuts = genNetCuts(s); p.thLimit = 1 + (unsigned) s.draw(6) + 4; p.thGrace = (unsigned) s.weighted({ 4, 1, 1 }); p.handler = s.draw(7) != 0; p.plainSockets = p.handler && !p.implicit && s.oneIn(4); unsigned bn = 0;
	auto W = [](Source& q, int pr) { return (int) (pr == 0 ? q.weighted({ 0, 8, 2, 1 }) : pr == 1 ? q.weighted({ 0, 3, 1, 4, 4, 4, 2, 1, 1, 1, 1, 2, 2, 2 }) : q.weighted({ 0, 6, 1, 5, 4, 4, 3, 2, 1, 1, 1, 1, 2, 2, 1, 2, 2, 1, 1, 1, 1, 2, 2, 2, 1, 1 })); };
	if (p.proto == 0) { std::vector<std::string> l = { "smtp.example" }; for (const char* e : { "PIPELINING", "CHUNKING", "SIZE", "DSN", "8BITMIME" }) if (s.coin()) { p.ext.insert(e); l.push_back(e); } for (size_t i = 0 ; i < l.size() ; ++i) p.ehlo += "250" + std::string(i + 1 < l.size() ? "-" : " ") + l[i] + "\r\n"; p.multi = s.coin(); p.enh = s.coin(); p.ehloOk = s.draw(7) != 0; unsigned n = 1 + (unsigned) s.draw(2); for (unsigned i = 0 ; i < n ; ++i) { mail36 m; m.from = "me@example.org"; unsigned q = 1 + (unsigned) s.draw(3); for (unsigned j = 0 ; j < q ; ++j) m.to.push_back("rcpt" + std::to_string(j) + "@example.org"); m.raw = "Subject: " + std::to_string(i) + "\r\n\r\n" + genText(s, false) + "\r\n"; if (s.oneIn(15)) m.raw += s.bulk(s.sizeNear(300000, { 16384, 262144 }), "abc .\n"); m.raw = toCRLF(m.raw); p.mails.push_back(m); } }
	else if (p.proto == 1) { unsigned n = (unsigned) s.draw(4); for (unsigned i = 0 ; i < n ; ++i) { p.msgs.push_back(toCRLF("Subject: m" + std::to_string(i) + "\r\n\r\n" + genText(s, true) + "\r\n")); p.uids.push_back("uid" + std::to_string(i)); } p.uidl = s.draw(4) != 0; p.top = s.draw(4) != 0; p.capa = s.draw(3) != 0; p.extra = s.coin(); p.apop = s.coin(); if (p.apop || s.coin()) p.stamp = "<1896.697170952@dbc.example>"; }
	else { imapServer& S = p.imap; S.rs = s.draw(1000000); S.condstore = s.oneIn(3); S.uidplus = s.coin(); S.children = s.coin(); S.specialUse = s.coin(); S.capsInGreeting = s.coin(); S.uidInFetch = s.coin(); S.preauth = s.oneIn(6); S.literals = s.coin(); S.junk = s.coin(); S.lowerNames = s.coin(); S.quotedBody = s.coin(); S.flagsOnFetch = s.draw(3) != 0; S.alwaysExists = s.coin(); for (const char* b : { "INBOX", "a", "b", "a/sub" }) { if (strcmp(b, "INBOX") && s.oneIn(6)) continue; auto x = S.make(b); unsigned n = (unsigned) s.draw(b[0] == 'I' ? 4 : 2); for (unsigned i = 0 ; i < n ; ++i) { auto t = std::make_shared<imapPart>(genMsg(s, 2, bn)); S.known[t->raw()] = t; auto m = S.add(*x, t->raw(), t); if (s.coin()) m->flags.insert("\\Seen"); } } }
	p.ops.push_back(op36()); { unsigned n = (unsigned) (s.draw(3) ? 2 + s.draw(6) : s.draw(10)); for (unsigned i = 0 ; i < n ; ++i) { op36 o; o.k = p.proto != 0 && i == 0 && s.draw(5) ? 1 : p.proto != 0 && i == 1 && s.coin() ? (p.proto == 1 ? 13 : 3) : W(s, p.proto); o.a = (unsigned) s.draw(s.coin() ? 0 : 5); if (i == 1 && p.proto && (o.k == 13 || o.k == 3)) o.a = 0; o.b = (unsigned) s.draw(63); o.f = s.coin(); p.ops.push_back(o); } }
	// without fault
	std::vector<res36> ref; size_t refConns; auto show = [&](const op36& o) { std::ostringstream x; x << opName(p.proto, o.k) << "(" << o.a << "," << o.b << "," << o.f << ")"; return x.str(); };
	NOTE(c, (p.proto == 0 ? "SMTP" : p.proto == 1 ? "POP3" : "IMAP") << (p.implicit ? " over TLS" : "") << (p.handler ? " timeout after " : " no timeout handler ") << p.thLimit << " polls, refused " << p.thGrace << " times" << (p.plainSockets ? ", sockets without time-out" : "") << "; reads " << pbt::show(p.cuts));
	auto check = [&](link36& L, const char* when) { CHECK_MSG(!L.hung, "the client waits for ever: " << when); };
	auto runAll = [&](client36& cl, std::vector<res36>& out) { for (auto& o : p.ops) { out.push_back(runOp(cl, o)); check(cl.L, "session without fault"); } };
	{ link36 L; L.thLimit = p.thLimit + 200; L.thGrace = 0; L.plainSockets = p.plainSockets; servers36 sv(p); client36 cl(p, L, &sv); runAll(cl, ref); for (size_t i = 0 ; i < ref.size() ; ++i) { NOTE(c, "  " << show(p.ops[i]) << " -> " << ref[i].val << " [" << ref[i].rd << " bytes received, " << ref[i].sd << " sent]"); CHECK_MSG(ref[i].ex != "socket_exception" && ref[i].ex != "operation_timed_out" && ref[i].val != "NOT DELIVERED", "session without fault: " << show(p.ops[i]) << " gave " << ref[i].val); } refConns = sv.conns.size(); (void) refConns; c.mix(std::to_string(p.proto) + std::to_string(p.implicit)); for (size_t i = 0 ; i < ref.size() ; ++i) c.mix(show(p.ops[i]) + ref[i].val); }
	CHECK_MSG(!ref[0].threw, "session without fault: connect() failed: " << ref[0].val);
	// the fault
	std::vector<size_t> cand; for (size_t i = 0 ; i < ref.size() ; ++i) if (ref[i].rd && !ref[i].threw) cand.push_back(i); size_t j = s.coin() ? cand[s.draw(cand.size() - 1)] : cand[cand.size() - 1 - s.draw((cand.size() - 1) / 3)]; link36 L; L.thLimit = p.thLimit; L.thGrace = p.thGrace; L.plainSockets = p.plainSockets; servers36 sv(p), sv2(p); client36 cl(p, L, &sv);
	L.kind = (faultKind) (1 + s.weighted({ 5, p.handler ? 4u : 0u, 4, p.handler ? 3u : 0u, 2, p.implicit ? 3u : 0u, p.handler ? 3u : 0u, 2 }));
	if (L.kind == F_USER) { std::vector<size_t> uc; for (size_t q : cand) if (ref[q].us) uc.push_back(q); if (uc.empty()) L.kind = F_CLOSE; else j = uc[s.draw(uc.size() - 1)]; } if (L.kind == F_NOTIFY && !ref[j].ra) L.kind = F_CLOSE; uint64_t span = L.kind == F_SENDFAIL ? ref[j].sd : L.kind == F_NOTIFY ? ref[j].ra : L.kind == F_USER ? ref[j].us : ref[j].rd; if (span == 0) { L.kind = F_CLOSE; span = ref[j].rd; } switch (s.draw(4)) { case 0: L.at = 0; break; case 1: L.at = (size_t) (span - 1 - std::min<uint64_t>(span - 1, s.draw(3))); break; default: L.at = s.draw((size_t) span - 1); } L.deadSends = s.coin(); L.flip = (unsigned char) (1u << s.draw(7)); L.tailStalls = s.coin() && p.handler; if (L.kind == F_GARBAGE) L.tail = genTail(s, p.proto);
	NOTE(c, "fault: " << faultName[L.kind] << " after " << L.at << " of " << span << " bytes of " << show(p.ops[j]) << (L.kind == F_GARBAGE ? " tail " + pbt::show(L.tail) + (L.tailStalls ? " then silence" : " then close") : "")); c.mix(std::to_string(j) + faultName[L.kind] + std::to_string(L.at) + L.tail);
	for (size_t i = 0 ; i < j ; ++i) { res36 r = runOp(cl, p.ops[i]); check(L, "before the fault"); CHECK_EQ(r.val, ref[i].val, "same session, before the fault: " + show(p.ops[i])); }
	L.armed = true; bool certain = L.kind == F_CLOSE || L.kind == F_NOTIFY || L.kind == F_STALL || L.kind == F_LATE || L.kind == F_SENDFAIL || L.kind == F_USER; if (L.kind == F_NOTIFY && ((p.proto == 2 && p.ops[j].k == 1) || p.ops[j].k == (p.proto == 0 ? 3 : 10))) certain = false; /* it can hit a connection which is given up anyway */ res36 r = runOp(cl, p.ops[j]); NOTE(c, "  " << show(p.ops[j]) << " -> " << r.val); check(L, show(p.ops[j]).c_str());
	if (!L.fired && p.implicit) { c.label("TLS: fewer bytes than before"); throw pbt::Discard(); } CHECK_MSG(L.fired || !certain, "the same session went differently"); L.armed = false;
	if (certain && !exempt(p.proto, p.ops[j].k)) CHECK_MSG(r.threw, show(p.ops[j]) << " returned \"" << r.val << "\" though the server " << (L.kind == F_CLOSE || L.kind == F_NOTIFY ? "closed the connection" : L.kind == F_STALL || L.kind == F_LATE ? "stopped answering" : L.kind == F_USER ? "went on, and the stream given by the user failed" : "stopped receiving") << " after " << L.at << " of " << span << " bytes"); 
	if (!r.threw && p.proto == 0 && L.kind != F_GARBAGE && L.kind != F_CORRUPT) CHECK_MSG(r.val != "NOT DELIVERED", "send() returned, but the message was not delivered");
	c.nontrivial(); c.label(std::string(p.proto == 0 ? "SMTP " : p.proto == 1 ? "POP3 " : "IMAP ") + faultName[L.kind] + (r.threw ? ": exception" : ": no exception")); c.label(std::string("op: ") + (p.proto == 0 ? "SMTP " : p.proto == 1 ? "POP3 " : "IMAP ") + opName(p.proto, p.ops[j].k)); if (r.threw) c.label("exception " + r.ex); if (p.implicit) c.label("TLS");
	// afterwards
	if (L.kind == F_LATE) L.stalled = false; const bool alive = L.kind == F_LATE || L.kind == F_USER; /* the server still answers */ unsigned more = alive ? 10 : s.coin() ? (unsigned) s.draw(3) : 0;
	auto moves = [&](int k) { return p.proto == 1 ? k == 0 || k == 1 || k == 3 || k == 6 || k == 9 || k == 10 || k == 13 : k == 0 || k == 1 || k == 3 || k == 6 || k == 9 || k == 10 || k == 13 || k == 14 || k == 18 || k == 19 || k == 24; }; bool same = p.proto == 0 || !moves(p.ops[j].k); // whether the client still has the messages it has without fault
	for (size_t i = j + 1 ; i < p.ops.size() && more ; ++i, --more) { res36 q = runOp(cl, p.ops[i]); NOTE(c, "  then " << show(p.ops[i]) << " -> " << q.val); check(L, "after the fault"); int k = p.ops[i].k; if (p.proto && moves(k) && q.val != ref[i].val) same = false; if (alive && !q.threw && same && !ref[i].threw && (p.proto == 0 ? k == 1 : k == 5 || k == 16)) { CHECK_EQ(q.val, ref[i].val, std::string(L.kind == F_LATE ? "after a late answer: " : "after the failure of the stream given by the user: ") + show(p.ops[i])); } if (alive) continue; if (p.proto == 0 && k == 1 && certain) CHECK_MSG(q.threw, "send() returned \"" << q.val << "\" after the connection was lost"); }
	bool dropFirst = s.coin(); if (dropFirst) cl.reset();
	switch (s.draw(2)) {
	case 0: break; // destroyed as it is
	case 1: try { cl.disconnect(); } catch (const vmime::exception&) { } check(L, "disconnect()"); CHECK_MSG(!cl.isCon(), "isConnected() after disconnect()"); break;
	default: { // once more with the same client, and servers without fault
		try { cl.disconnect(); } catch (const vmime::exception&) { } check(L, "disconnect()"); CHECK_MSG(!cl.isCon(), "isConnected() after disconnect()"); cl.reset(); cl.sv = &sv2; sv2.L = &L; ++L.gen; L.dead = L.stalled = L.armed = false; L.kind = F_NONE; L.thLimit = p.thLimit + 200; L.thGrace = 0; NOTE(c, "again, without fault"); std::vector<res36> again; runAll(cl, again); for (size_t i = 0 ; i < ref.size() ; ++i) CHECK_EQ(again[i].val, ref[i].val, "after a fault and a new connection: " + show(p.ops[i])); c.label("the session again"); cl.reset(); try { cl.disconnect(); } catch (const vmime::exception&) { } check(L, "disconnect()"); CHECK_EQ(L.opened, L.closedN, "connections left open"); return; }
	}
	cl.reset(); cl.tr = nullptr; cl.st = nullptr; cl.svc = nullptr; cl.sess = nullptr; check(L, "destruction"); CHECK_EQ(L.opened, L.closedN, "connections left open after the client is gone");
}
static void init() { installPlatform(); detHandler::clock() = time(NULL); gnutls_global_init(); tlsCerts::get(); }
Property makeProperty() {
	Property p; p.id = "C36"; p.run = run; p.quick = 10000; p.thorough = 400000; p.init = init; p.caseCpuSeconds = 20;
	p.rule = "a fault was injected into an operation of the session";
	p.assumptions = { "time is counted in polls of the socket: the timeout handler of a case allows some", "silence is only injected when there is a timeout handler", "the memory used for the messages which a server announces is not limited" };
	return p;
}
