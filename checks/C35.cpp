// C35: authentication over SMTP, POP3 and IMAP against model servers: success exactly when the credentials match, credentials as given, nothing sent in the clear when TLS is required.
// FLAVOURS: main alt
// LIBS: -lgnutls -lgsasl
#include "tlspeer.hpp"
#include "authpeer.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/net/tracer.hpp"
#include "vmime/security/defaultAuthenticator.hpp"
#include "vmime/security/cert/X509Certificate.hpp"
#include "vmime/security/cert/defaultCertificateVerifier.hpp"
#include "vmime/security/sasl/SASLMechanismFactory.hpp"
#include "vmime/security/sasl/SASLMechanism.hpp"
#include "vmime/security/sasl/SASLSession.hpp"
#include "vmime/security/sasl/SASLContext.hpp"
#include "vmime/security/sasl/XOAuth2SASLMechanism.hpp"
#include "vmime/security/sasl/XOAuth2SASLAuthenticator.hpp"
using namespace vmime::security;
static bool g_layerInitial = false;
struct layerMech : sasl::SASLMechanism { // the client side of X-LAYER
	bool done = false; layerMech(const vmime::shared_ptr<sasl::SASLContext>&, const vmime::string&) { } const vmime::string getName() const { return "X-LAYER"; }
	bool step(const vmime::shared_ptr<sasl::SASLSession>& ss, const byte_t*, const size_t, byte_t** r, size_t* n) { std::string x; try { x = ss->getAuthenticator()->getUsername() + std::string(1, '\0') + ss->getAuthenticator()->getPassword(); } catch (const vmime::exceptions::no_auth_information&) { throw vmime::exceptions::sasl_exception("no credentials"); } *r = new byte_t[x.size() + 1]; memcpy(*r, x.data(), x.size()); *n = x.size(); done = true; return true; }
	bool isComplete() const { return done; } bool hasInitialResponse() const { return g_layerInitial; }
	void code(const byte_t* i, const size_t n, byte_t** o, size_t* on) { *o = new byte_t[n + 1]; for (size_t k = 0 ; k < n ; ++k) (*o)[k] = i[k] ^ 0x55; *on = n; }
	void encode(const vmime::shared_ptr<sasl::SASLSession>&, const byte_t* i, const size_t n, byte_t** o, size_t* on) { code(i, n, o, on); } void decode(const vmime::shared_ptr<sasl::SASLSession>&, const byte_t* i, const size_t n, byte_t** o, size_t* on) { code(i, n, o, on); }
};
struct memTracer : vmime::net::tracer { std::string* t; explicit memTracer(std::string* x) : t(x) { } void traceSend(const vmime::string& l) { *t += "C: " + l + "\n"; } void traceReceive(const vmime::string& l) { *t += "S: " + l + "\n"; } };
struct memTracerFactory : vmime::net::tracerFactory { std::string* t; explicit memTracerFactory(std::string* x) : t(x) { } vmime::shared_ptr<vmime::net::tracer> create(const vmime::shared_ptr<vmime::net::service>&, const int) { return vmime::make_shared<memTracer>(t); } };
static std::string genCred(Source& s, bool pw) {
	std::string r; switch (s.weighted({ 8, 4, 3, 3, 2, 2, 2, 1, 1, 2, 1 })) {
	case 0: r = pw ? s.pick({ "couic", "secret-Pass1", "tanstaaf" }) : s.pick({ "vincent", "user@example.org", "tim" }); break;
	case 1: r = s.str(12, "abcXYZ019 .,=+-_@/:;"); break;
	case 2: r = s.str(10, "ab\"\\(){%*} '<>&]["); break;
	case 3: r = s.pick({ "d\xc3\xa9j\xc3\xa0", "\xe2\x82\xac" "100", "p\xc3\xa4ss", "\xd0\xb8\xd0\xbc\xd1\x8f", "\xf0\x9f\x98\x80x" }); break;
	case 4: r = s.pick({ "\xaa", "I\xc2\xadX", "\xc2\xaa", "\xe2\x85\xa8", "a\xcc\x81", "\xd8\xa7" "1", "\xff\xfe", "\xc2\xa0x" }); break;  // not what SASLprep gives, or invalid
	case 5: r = std::string("a") + s.pick({ "\r\n", "\n", "\r", "x\r\nNOOP", "\t", "\x7f" }) + "b"; break;
	case 6: r = std::string("ab") + std::string(1, '\0') + s.str(3, "ab"); break;
	case 7: r = "a\x01" "auth=Bearer x\x01\x01"; break;
	case 8: r = std::string(200 + s.draw(400), 'k') + s.str(4, "abc"); break;
	case 9: r = s.pick({ " lead", "trail ", "a  b", "=", "=x", "*", "%41", "~", "{3}", "NIL", "+", ".", "\"q\"", "\\" }); break;
	default: r = ""; }
	return r;
}
enum verdict { NEVER, MAY, MUST };
static verdict mechVerdict(std::string m, const authAccount& a, const authAccount& c, bool havePass, bool haveToken) {
	auto nul = [](const std::string& x) { return x.find('\0') != std::string::npos; }; bool same = c.user == a.user && havePass && c.pass == a.pass; for (char& ch : m) ch = (char) toupper((unsigned char) ch);
	if (m == "XOAUTH2") { if (!haveToken || c.user != a.user || c.token != a.token || c.token.empty()) return NEVER; return (c.user + c.token).find('\x01') != std::string::npos ? MAY : c.user.empty() ? MAY : MUST; }
	if (m == "X-LAYER") return !same ? NEVER : nul(c.user) ? MAY : MUST;
	if (m == "PLAIN" || m == "LOGIN") return !same ? NEVER : nul(c.user + c.pass) || c.user.empty() || c.pass.empty() ? MAY : MUST;
	if (m == "CRAM-MD5" || m == "DIGEST-MD5" || m == "SCRAM-SHA-1" || m == "SCRAM-SHA-256") { if (!same) return NEVER; if (c.user.empty() || c.pass.empty() || !prepSame(c.user) || !prepSame(c.pass)) return MAY; if (m == "DIGEST-MD5" && (c.user[0] == ' ' || c.user.back() == ' ' || c.pass[0] == ' ' || c.pass.back() == ' ')) return MAY; if (m == "DIGEST-MD5" && (c.user + c.pass).find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_@.,=+/;'<>") != std::string::npos) return MAY; return MUST; }
	return NEVER;
}
static void run(Source& s, Ctx& c) {
	authCfg k; k.proto = (int) s.draw(2); authAccount cl; cl.user = genCred(s, false); cl.pass = genCred(s, true); cl.token = s.coin() ? s.pick({ "ya29.vF9dft4qmTc2Nvb3RlckBhdHRhdmlzdGEuY29tCg", "tok en", "x=" }) : genCred(s, true); bool havePass = s.draw(9) != 0, haveToken = s.coin();
	k.acc = cl; switch (s.weighted({ 8, 1, 1, 1, 1 })) { case 1: k.acc.pass += "x"; k.acc.token += "x"; break; case 2: k.acc.user += "x"; break; case 3: { size_t p = k.acc.pass.find('\0'); if (p != std::string::npos) k.acc.pass.resize(p); p = k.acc.user.find('\0'); if (p != std::string::npos) k.acc.user.resize(p); if (k.acc.pass == cl.pass && !k.acc.pass.empty()) k.acc.pass.pop_back(); break; } case 4: k.acc.pass = "Completely Different"; k.acc.token = "Other"; break; default: break; }
	{ static const std::vector<std::string> all = { "PLAIN", "LOGIN", "CRAM-MD5", "DIGEST-MD5", "SCRAM-SHA-1", "SCRAM-SHA-256", "XOAUTH2", "X-LAYER", "ANONYMOUS", "EXTERNAL", "SECURID", "NTLM", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "X-UNKNOWN", "GSSAPI", "OAUTHBEARER", "KERBEROS_V5", "GS2-KRB5", "SAML20", "OPENID20" }; unsigned n = (unsigned) s.weighted({ 1, 5, 3, 2, 1 }); for (unsigned i = 0 ; i < n ; ++i) { std::string m = all[s.draw(s.coin() ? 7 : all.size() - 1)]; if (std::find(k.mechs.begin(), k.mechs.end(), m) == k.mechs.end()) k.mechs.push_back(m); } }
	if (s.oneIn(8)) for (auto& m : k.mechs) for (char& ch : m) ch = (char) tolower((unsigned char) ch);
	k.stamp = s.coin() ? "<1896.697170952@dbc.example>" : ""; k.popText = s.pick({ "ready", "ready", "", "POP3 server (version 4.0.5) at server.example starting.", "ready (a comment)", "<>", "server.example POP3" }); if (!k.stamp.empty() && k.popText == "<>") k.popText = ""; k.st = (starttlsMode) s.weighted({ 5, 2, 2, 1, 2 }); k.advertise = s.draw(3) != 0; k.preauth = k.proto == 2 && s.oneIn(10); k.loginDisabled = k.proto == 2 && s.oneIn(6); k.saslIr = s.coin(); k.capsInGreeting = s.coin(); k.capsInOk = s.coin(); k.esmtp = s.draw(11) != 0; k.authEquals = s.oneIn(6); k.lower = s.oneIn(6); k.insist = s.oneIn(8);
	if (k.st == ST_INJECT) k.inject = k.proto == 0 ? s.pick({ "250-server.example\r\n250 AUTH PLAIN\r\n", "235 ok\r\n", "250 ok\r\n235 ok\r\n", "535 no\r\n" }) : k.proto == 1 ? s.pick({ "+OK\r\n", "-ERR\r\n", "+OK\r\nSASL PLAIN\r\n.\r\n+OK\r\n" }) : s.pick({ "* CAPABILITY IMAP4rev1 AUTH=PLAIN\r\n", "* OK x\r\na003 OK done\r\n", "* BYE\r\n" });
	bool implicit = s.oneIn(8), tls = s.coin(), tlsReq = s.coin(), tlsReqSet = s.coin(); if (!tlsReqSet) tlsReq = false; tlsFault fault = (tlsFault) (s.draw(2) ? 0 : s.draw(TLS_FAULTS - 1));
	bool saslOpt = s.draw(5) != 0, saslFb = s.coin(), apop = s.coin(), apopFb = s.coin(), needAuth = s.draw(7) != 0; unsigned au = (unsigned) s.weighted({ 6, 1, 1, 1 }); g_layerInitial = s.coin(); if (k.proto == 2 && !k.saslIr && g_layerInitial) g_layerInitial = false;
	std::vector<size_t> cuts = genNetCuts(s); static const char* protos[3][2] = { { "smtp", "smtps" }, { "pop3", "pop3s" }, { "imap", "imaps" } }; std::string pn = protos[k.proto][implicit], pre = std::string(k.proto == 0 ? "transport." : "store.") + pn + ".";
	NOTE(c, pn << ": client " << pbt::show(cl.user) << " / " << (havePass ? pbt::show(cl.pass) : "no password") << " / " << (haveToken ? pbt::show(cl.token) : "no token") << "; account " << pbt::show(k.acc.user) << " / " << pbt::show(k.acc.pass) << " / " << pbt::show(k.acc.token)); NOTE(c, "mechanisms " << pbt::show(k.mechs) << "; STARTTLS " << k.st << (tls ? " tls" : "") << (tlsReq ? " tls.required" : "") << " fault " << fault << "; sasl " << saslOpt << "/" << saslFb << " apop " << apop << "/" << apopFb << " stamp " << k.stamp << " need-auth " << needAuth << " authenticator " << au << (k.preauth ? " PREAUTH" : "") << (k.loginDisabled ? " LOGINDISABLED" : "") << " SASL-IR " << k.saslIr << " ESMTP " << k.esmtp << " insist " << k.insist << " cuts " << pbt::show(cuts));
	c.mix(pn + cl.user + cl.pass + pbt::show(k.mechs) + std::to_string(k.st) + std::to_string(fault));
	vmime::propertySet props; auto set = [&](const char* n, auto v) { props[pre + n] = v; }; props[k.proto == 0 ? "transport.protocol" : "store.protocol"] = pn; set("server.address", std::string("server.example")); set("auth.username", cl.user); if (havePass) set("auth.password", cl.pass); if (haveToken) set("auth.accesstoken", cl.token); if (k.proto == 0) set("options.need-authentication", needAuth); set("options.sasl", saslOpt); set("options.sasl.fallback", saslFb); if (k.proto == 1) { set("options.apop", apop); set("options.apop.fallback", apopFb); } if (!implicit || s.coin()) { set("connection.tls", tls); if (tlsReqSet) set("connection.tls.required", tlsReq); }
	auto sess = vmime::net::session::create(props); vmime::shared_ptr<authenticator> auth; switch (au) { case 1: auth = vmime::make_shared<sasl::XOAuth2SASLAuthenticator>(sasl::XOAuth2SASLAuthenticator::MODE_SUGGEST); break; case 2: auth = vmime::make_shared<sasl::XOAuth2SASLAuthenticator>(sasl::XOAuth2SASLAuthenticator::MODE_EXCLUSIVE); break; case 3: auth = vmime::make_shared<defaultAuthenticator>(); break; default: break; } if (au == 3 && s.coin()) { auth = nullptr; au = 0; }
	std::vector<std::shared_ptr<tlsPeer>> conns; std::vector<std::shared_ptr<authPeer>> apps; std::string trace;
	auto factory = vmime::make_shared<netSocketFactory>([&]() { auto a = std::make_shared<authPeer>(k); auto t = std::make_shared<tlsPeer>(); t->app = a; t->implicit = implicit; t->fault = fault; t->cuts = cuts; a->secure = implicit; authPeer* ap = a.get(); t->wantTls = [ap]() { bool r = ap->startNow; if (r) { ap->startNow = false; ap->secure = true; } return r; }; conns.push_back(t); apps.push_back(a); return std::static_pointer_cast<netPeer>(t); });
	vmime::shared_ptr<vmime::net::service> sv; vmime::shared_ptr<vmime::net::transport> tr; vmime::shared_ptr<vmime::net::store> st; if (k.proto == 0) sv = tr = sess->getTransport(auth); else sv = st = sess->getStore(auth); sv->setSocketFactory(factory); sv->setTimeoutHandlerFactory(vmime::make_shared<netTimeoutFactory>()); sv->setTracerFactory(vmime::make_shared<memTracerFactory>(&trace));
	{ auto v = vmime::make_shared<cert::defaultCertificateVerifier>(); const std::string& ca = tlsCerts::get().ca; std::vector<vmime::shared_ptr<cert::X509Certificate>> roots; roots.push_back(cert::X509Certificate::import(reinterpret_cast<const byte_t*>(ca.data()), ca.size())); v->setX509RootCAs(roots); sv->setCertificateVerifier(v); }
	auto isCon = [&]() { return k.proto == 0 ? tr->isConnected() : st->isConnected(); };
	auto connectOnce = [&]() {
		// what has to happen
		verdict v = MUST; std::string why = "plain"; bool secured = false, explicitTls = !implicit && (tls || tlsReq), needs = k.proto == 0 ? needAuth : true;
		if (implicit) { if (fault != TLS_GOOD) { v = NEVER; why = "TLS"; } else secured = true; }
		else if (explicitTls) { if (k.proto == 2 && k.preauth) { v = MAY; why = "PREAUTH and TLS"; } else if (k.st == ST_OK || k.st == ST_INJECT) { if (fault != TLS_GOOD) { v = NEVER; why = "TLS fault"; } else { secured = true; if (k.st == ST_INJECT) { v = MAY; why = "injection"; } } } else if (k.st == ST_GARBAGE) { v = tlsReq ? NEVER : MAY; why = "STARTTLS garbage"; } else if (tlsReq) { v = NEVER; why = "no TLS"; } }
		std::vector<std::string> usable; bool saslRun = false; verdict sv2 = NEVER; if (v != NEVER && needs && !(k.proto == 2 && k.preauth)) {
			verdict w = NEVER; if (k.proto == 0 && !k.esmtp) why = "no ESMTP"; else { if (saslOpt) { saslRun = true; if (au != 3) for (auto& m : k.mechs) { std::string u = m; for (char& ch : u) ch = (char) toupper((unsigned char) ch); if (au == 2 && u != "XOAUTH2") continue; w = std::max(w, mechVerdict(m, k.acc, cl, havePass, haveToken)); } sv2 = w; why = "SASL"; }
			bool fb = k.proto != 0 && (!saslOpt || saslFb); if (w != MUST && fb) { bool same = havePass && cl.user == k.acc.user && cl.pass == k.acc.pass; std::string both = cl.user + cl.pass; bool evil = both.find_first_of(std::string("\r\n\0", 3)) != std::string::npos; verdict p = NEVER;
				if (k.proto == 2) { if (!k.loginDisabled && same) p = evil ? NEVER : MUST; } else if (same && !evil) { bool odd = cl.user.empty() || cl.pass.empty(); if (!apop) p = odd ? MAY : MUST; else if (!k.stamp.empty()) p = odd ? MAY : MUST; else if (apopFb) p = odd ? MAY : MUST; }
				if (p > w) { w = p; why = "fallback"; } } }
			if (saslRun && k.insist && w == MUST) w = MAY; v = std::min(v, w); }
		trace.clear(); std::string got; try { if (k.proto == 0) tr->connect(); else st->connect(); } catch (const vmime::exception& e) { got = e.name(); got += std::string(": ") + e.what(); }
		tlsPeer& t = *conns.back(); authPeer& a = *apps.back(); NOTE(c, "connect: " << (got.empty() ? "ok" : got) << "; expected " << v << " (" << why << "); commands " << pbt::show(a.log)); CHECK_MSG(a.bad.empty(), "the server complains: " << a.bad);
		if (got.empty()) { CHECK_MSG(isCon(), "connect() succeeded but isConnected() is false"); if (needs) CHECK_MSG(a.authed, "connect() succeeded though the server did not authenticate the client"); CHECK_MSG(v != NEVER, "connect() succeeded, it has to fail (" << why << ")"); } else { CHECK_MSG(v != MUST, "connect() failed (" << got << "), it has to succeed (" << why << ")"); CHECK_MSG(!isCon(), "connect() failed but isConnected() is true"); }
		// what the server got is what was configured
		if (!a.insisted) for (auto& x : a.seen) { NOTE(c, "server got " << x.how << " " << pbt::show(x.user) << " " << pbt::show(x.pass)); std::string w = x.how == "XOAUTH2" ? cl.token : cl.pass; bool raw = x.how == "PLAIN" || x.how == "LOGIN" || x.how == "XOAUTH2" || x.how == "X-LAYER" || x.how == "PASS" || x.how == "LOGINCMD"; if (x.how == "X-LAYER" && cl.user.find('\0') != std::string::npos) continue; if (raw || (x.how == "APOP") || (prepSame(cl.user) && x.how != "DIGEST-MD5")) CHECK_EQ(x.user, cl.user, "user name received with " + x.how); if (raw) CHECK_EQ(x.pass, w, "secret received with " + x.how); }
		// and only as configured
		auto sent = [&](const char* w) { for (auto& l : a.log) if (l == w) return true; return false; }; bool anySasl = false; for (auto& l : a.log) anySasl = anySasl || l.compare(0, 5, "AUTH ") == 0;
		if (!saslOpt) CHECK_MSG(!anySasl, "SASL used though disabled"); if (k.proto == 0 && !needAuth) CHECK_MSG(!anySasl, "authentication not wanted"); if (saslOpt && !saslFb) CHECK_MSG(!sent("USER") && !sent("PASS") && !sent("APOP") && !sent("LOGIN"), "fallback though SASL has none"); if (k.proto == 1 && apop && !apopFb) CHECK_MSG(!sent("PASS"), "PASS sent though APOP has no fallback"); if (k.proto == 1 && !apop) CHECK_MSG(!sent("APOP"), "APOP sent though disabled"); if (au == 2) for (auto& l : a.log) CHECK_MSG(l.compare(0, 5, "AUTH ") != 0 || l == "AUTH XOAUTH2" || l == "AUTH xoauth2", "mechanism other than XOAUTH2 with the exclusive authenticator");
		// nothing in the clear
		if (implicit || (explicitTls && (tlsReq || secured))) for (auto& l : a.plainLog) CHECK_MSG(l != "USER" && l != "PASS" && l != "APOP" && l != "LOGIN" && l.compare(0, 5, "AUTH ") != 0, "credentials sent outside TLS: " << l); if (implicit) CHECK_MSG(t.plainSeen.empty(), "data sent outside TLS");
		if (explicitTls && tlsReq && got.empty()) CHECK_MSG(t.up, "connected without TLS though it is required");
		// nor in the trace
		for (auto* x : { &cl.pass, &cl.token }) { if (x->size() < 8 || k.acc.user.find(*x) != std::string::npos || cl.user.find(*x) != std::string::npos) continue; CHECK_MSG(trace.find(*x) == std::string::npos, "the trace shows the password: " << pbt::show(trace)); } for (auto& x : a.seen) { (void) x; std::string xo = refB64("user=" + cl.user + "\x01" "auth=Bearer " + cl.token + "\x01\x01"); CHECK_MSG(trace.find(xo) == std::string::npos, "the trace shows the access token: " << pbt::show(trace)); }
		bool sec = k.proto == 0 ? tr->isSecuredConnection() : st->isSecuredConnection(); if (got.empty()) CHECK_EQ(sec, t.up, "isSecuredConnection()"); else CHECK_MSG(!sec, "isSecuredConnection() after a failed connect()");
		c.label(pn + (v == MUST ? " must" : v == MAY ? " may" : " never") + " " + why); if (a.seen.size() > 0) { c.nontrivial(); c.label("authentication with " + a.seen.back().how + (got.empty() ? ", accepted" : ", refused")); } if (t.up) { c.nontrivial(); c.label("TLS"); } (void) saslRun; (void) sv2;
		if (got.empty()) { if (k.proto == 0) tr->noop(); else st->noop(); CHECK_MSG(a.log.back() == "NOOP", "NOOP did not arrive"); CHECK_MSG(a.bad.empty(), "the server complains: " << a.bad); if (a.layer) c.label("security layer"); if (k.proto == 0) tr->disconnect(); else st->disconnect(); CHECK_MSG(!isCon(), "isConnected() after disconnect()"); }
		else { bool thrown = false; try { if (k.proto == 0) tr->disconnect(); else st->disconnect(); } catch (const vmime::exceptions::not_connected&) { thrown = true; } CHECK_MSG(thrown, "disconnect() after a failed connect() does not tell it"); }
	};
	connectOnce(); CHECK_MSG(conns.size() == 1, "several connections");
	if (s.coin()) { // once more, with the same object and a server which has no objection
		NOTE(c, "second connection"); k.acc = cl; k.st = ST_OK; fault = TLS_GOOD; k.insist = false; if (s.coin()) { k.mechs = { "PLAIN" }; k.esmtp = true; } connectOnce(); c.label("connected again"); }
	tr = nullptr; st = nullptr; sv = nullptr; for (auto& t : conns) CHECK_EQ(t->disconnects, t->connects, "a connection is left open");
}
static void init() { installPlatform(); detHandler::clock() = time(NULL); gnutls_global_init(); tlsCerts::get(); auto f = sasl::SASLMechanismFactory::getInstance(); f->registerMechanism<sasl::XOAuth2SASLMechanism>("XOAUTH2"); f->registerMechanism<layerMech>("X-LAYER"); }
Property makeProperty() {
	Property p; p.id = "C35"; p.run = run; p.quick = 10000; p.thorough = 400000; p.init = init; p.caseCpuSeconds = 10;
	p.rule = "the server received credentials, or TLS was established";
	p.assumptions = { "credentials which GNU SASL cannot represent (NUL), which SASLprep changes, or which its DIGEST-MD5 cannot quote may be refused, but are never sent altered", "a server that keeps its SASL exchange going after the client cancelled it, or speaks before the TLS handshake, may be given up", "mutual authentication is not asserted: what counts is that the server accepted the client" };
	return p;
}
