// A model server for authentication over SMTP, POP3 and IMAP: the dialogue of each protocol, and the server side of the SASL mechanisms.
#pragma once
#include "pop3peer.hpp"
#include <gsasl.h>
#include <gnutls/crypto.h>
inline bool prepSame(const std::string& x) { // the string is what SASLprep makes of it
	if (x.find('\0') != std::string::npos) return false; for (unsigned char c : x) if (c >= 0x80) { size_t i = 0; (void) i; break; } char* o = nullptr; int rc = 0; if (gsasl_saslprep(x.c_str(), GSASL_ALLOW_UNASSIGNED, &o, &rc) != GSASL_OK) return false; bool r = x == o; free(o); return r;
}
inline std::string hmacMd5(const std::string& k, const std::string& d) { unsigned char b[16]; gnutls_hmac_fast(GNUTLS_MAC_MD5, k.data(), k.size(), d.data(), d.size(), b); std::string r; for (unsigned char c : b) { char h[3]; snprintf(h, 3, "%02x", c); r += h; } return r; }
struct authAccount { std::string user, pass, token; };
struct authSeen { std::string how, user, pass; }; // what the server got from the client
struct saslSrv { // step: 0 = the challenge is in out, 1 = success (a challenge in out has to be sent first if hasOut), 2 = failure
	const authAccount& a; std::vector<authSeen>& seen; bool clientFirst = true; saslSrv(const authAccount& x, std::vector<authSeen>& s) : a(x), seen(s) { } virtual ~saslSrv() { } virtual int step(const std::string& in, std::string& out, bool& hasOut) = 0; };
struct plainSrv : saslSrv { using saslSrv::saslSrv; int step(const std::string& in, std::string&, bool&) { size_t p = in.find('\0'), q = p == std::string::npos ? p : in.find('\0', p + 1); if (q == std::string::npos) { seen.push_back({ "PLAIN", "?malformed", in }); return 2; } std::string z = in.substr(0, p), u = in.substr(p + 1, q - p - 1), w = in.substr(q + 1); seen.push_back({ "PLAIN", u, w }); return (z.empty() || z == a.user) && u == a.user && w == a.pass ? 1 : 2; } };
struct loginSrv : saslSrv { int n = 0; std::string u; loginSrv(const authAccount& x, std::vector<authSeen>& s) : saslSrv(x, s) { clientFirst = false; } int step(const std::string& in, std::string& out, bool& h) { switch (n++) { case 0: out = "Username:"; h = true; return 0; case 1: u = in; out = "Password:"; h = true; return 0; default: seen.push_back({ "LOGIN", u, in }); return u == a.user && in == a.pass ? 1 : 2; } } };
struct cramSrv : saslSrv { int n = 0; std::string ch; cramSrv(const authAccount& x, std::vector<authSeen>& s) : saslSrv(x, s) { clientFirst = false; } int step(const std::string& in, std::string& out, bool& h) { if (n++ == 0) { out = ch = "<1896.697170952@postoffice.example>"; h = true; return 0; } size_t sp = in.rfind(' '); if (sp == std::string::npos) return 2; seen.push_back({ "CRAM-MD5", in.substr(0, sp), "" }); return in.substr(0, sp) == a.user && in.substr(sp + 1) == hmacMd5(a.pass, ch) ? 1 : 2; } };
struct xoauthSrv : saslSrv { int n = 0; using saslSrv::saslSrv; int step(const std::string& in, std::string& out, bool& h) { if (n++) return 2; static const std::string m = "\x01" "auth=Bearer "; size_t p = in.find(m); if (in.compare(0, 5, "user=") || p == std::string::npos || in.size() < p + m.size() + 2 || in.compare(in.size() - 2, 2, "\x01\x01")) { seen.push_back({ "XOAUTH2", "?malformed", in }); return 2; } std::string u = in.substr(5, p - 5), t = in.substr(p + m.size(), in.size() - 2 - p - m.size()); seen.push_back({ "XOAUTH2", u, t }); if (u == a.user && t == a.token && !a.token.empty()) return 1; out = "{\"status\":\"401\",\"schemes\":\"bearer\",\"scope\":\"https://mail.example/\"}"; h = true; return 0; } };
struct gsaslSrv : saslSrv {
	Gsasl* g = nullptr; Gsasl_session* ses = nullptr; std::string nm; bool ok = false, over = false;
	gsaslSrv(const authAccount& x, std::vector<authSeen>& s, const std::string& m) : saslSrv(x, s), nm(m) { clientFirst = m != "DIGEST-MD5"; if (gsasl_init(&g) != GSASL_OK) abort(); gsasl_callback_set(g, cb); gsasl_callback_hook_set(g, this); ok = gsasl_server_start(g, m.c_str(), &ses) == GSASL_OK; }
	~gsaslSrv() { if (ses) gsasl_finish(ses); if (g) gsasl_done(g); }
	static int cb(Gsasl* g, Gsasl_session* s, Gsasl_property p) { auto* t = static_cast<gsaslSrv*>(gsasl_callback_hook_get(g)); switch (p) { case GSASL_PASSWORD: { const char* u = gsasl_property_fast(s, GSASL_AUTHID); t->seen.push_back({ t->nm, u ? u : "", "" }); if (!u || t->a.user != u) return GSASL_NO_CALLBACK; gsasl_property_set(s, GSASL_PASSWORD, t->a.pass.c_str()); return GSASL_OK; } case GSASL_REALM: gsasl_property_set(s, GSASL_REALM, "server.example"); return GSASL_OK; case GSASL_SCRAM_ITER: gsasl_property_set(s, p, "64"); return GSASL_OK; default: return GSASL_NO_CALLBACK; } }
	int step(const std::string& in, std::string& out, bool& h) { if (!ok) return 2; if (over) return 1; char* o = nullptr; size_t n = 0; int r = gsasl_step(ses, in.data(), in.size(), &o, &n); if (r == GSASL_OK || r == GSASL_NEEDS_MORE) { out.assign(o ? o : "", o ? n : 0); h = true; gsasl_free(o); if (r == GSASL_OK) { over = true; if (out.empty()) return 1; } return 0; } return 2; }
};
// a mechanism with a security layer, known to both sides: after it, each byte is combined with 0x55
struct xorSrv : saslSrv { using saslSrv::saslSrv; int step(const std::string& in, std::string&, bool&) { seen.push_back({ "X-LAYER", in.substr(0, in.find('\0')), in.find('\0') == std::string::npos ? "" : in.substr(in.find('\0') + 1) }); return in == a.user + std::string(1, '\0') + a.pass ? 1 : 2; } };
enum starttlsMode { ST_OK, ST_REFUSE, ST_BAD, ST_GARBAGE, ST_INJECT };
struct authCfg {
	int proto = 0; authAccount acc; std::vector<std::string> mechs; std::string stamp, popText = "ready"; starttlsMode st = ST_OK; std::string inject;
	bool advertise = true, preauth = false, loginDisabled = false, saslIr = false, capsInGreeting = false, capsInOk = false, esmtp = true, authEquals = false, lower = false, userOk = true, insist = false;
};
struct authPeer : netPeer {
	authCfg k; bool secure = false, authed = false, startNow = false, layer = false, quit = false, lastAuthed = false; unsigned commands = 0, insisted = 0; std::vector<std::string> log, plainLog; std::vector<authSeen> seen; std::string bad, tag, gotUser; std::unique_ptr<saslSrv> sasl; bool saslFresh = false; std::string secIn;
	explicit authPeer(const authCfg& c) : k(c) { }
	void violation(const std::string& x) { if (bad.empty()) bad = x; }
	void put(const std::string& x) { std::string y = x + "\r\n"; if (layer) for (char& c : y) c ^= 0x55; out += y; }
	std::string capsLine() { std::string r = "CAPABILITY IMAP4rev1"; if (k.saslIr) r += " SASL-IR"; if (k.advertise && !secure) r += " STARTTLS"; if (k.loginDisabled) r += " LOGINDISABLED"; for (auto& m : k.mechs) r += (k.lower ? " auth=" : " AUTH=") + m; return r; }
	void onConnect(const std::string&, int) { switch (k.proto) { case 0: put("220 server.example ready"); break; case 1: put("+OK" + (k.popText.empty() ? "" : " " + k.popText) + (k.stamp.empty() ? "" : " " + k.stamp)); break; default: if (k.preauth) authed = true; put(std::string(k.preauth ? "* PREAUTH " : "* OK ") + (k.capsInGreeting ? "[" + capsLine() + "] " : "") + "ready"); } }
	void ok(const std::string& t) { put(k.proto == 0 ? "235 2.7.0 " + t : k.proto == 1 ? "+OK " + t : tag + " OK " + (k.capsInOk ? "[" + capsLine() + "] " : "") + t); }
	void no(const std::string& t) { put(k.proto == 0 ? "535 5.7.8 " + t : k.proto == 1 ? "-ERR " + t : tag + " NO " + t); }
	void badCmd(const std::string& t) { put(k.proto == 0 ? "502 5.5.1 " + t : k.proto == 1 ? "-ERR " + t : tag + " BAD " + t); }
	void challenge(const std::string& x) { put((k.proto == 0 ? "334 " : "+ ") + refB64(x)); }
	void saslGo(const std::string& in, bool have) {
		std::string o; bool h = false; if (!have && sasl->clientFirst && saslFresh) { saslFresh = false; challenge(""); return; } saslFresh = false; int r = sasl->step(in, o, h);
		if (r == 0) { challenge(o); return; } bool x = dynamic_cast<xorSrv*>(sasl.get()) != nullptr; sasl.reset(); if (r == 1) { authed = true; ok("welcome"); if (x) layer = true; } else no("authentication failed");
	}
	void saslStart(std::string m, const std::string* init) {
		log.push_back("AUTH " + m); if (!secure) plainLog.push_back("AUTH " + m); if (authed) violation("authentication in the authenticated state"); for (char& ch : m) ch = (char) toupper((unsigned char) ch);
		bool offered = false; for (auto x : k.mechs) { for (char& ch : x) ch = (char) toupper((unsigned char) ch); offered = offered || x == m; } if (!offered) { violation("AUTH with " + m + ", which is not offered"); no("unknown mechanism"); return; }
		if (m == "PLAIN") sasl = std::make_unique<plainSrv>(k.acc, seen); else if (m == "LOGIN") sasl = std::make_unique<loginSrv>(k.acc, seen); else if (m == "CRAM-MD5") sasl = std::make_unique<cramSrv>(k.acc, seen); else if (m == "XOAUTH2") sasl = std::make_unique<xoauthSrv>(k.acc, seen); else if (m == "X-LAYER") sasl = std::make_unique<xorSrv>(k.acc, seen); else if (m == "DIGEST-MD5" || m == "SCRAM-SHA-1" || m == "SCRAM-SHA-256") sasl = std::make_unique<gsaslSrv>(k.acc, seen, m); else { no("mechanism not available"); return; }
		saslFresh = true; if (!init) { saslGo("", false); return; } if (k.proto == 2 && !k.saslIr) { violation("initial response sent to a server without SASL-IR"); sasl.reset(); badCmd("no initial response"); return; }
		std::string d; if (*init != "=") { d = refUnB64(*init); if (refB64(d) != *init) { violation("malformed initial response " + pbt::show(*init)); sasl.reset(); no("syntax"); return; } } saslGo(d, true);
	}
	void reset() { sasl.reset(); }
	bool imapString(const std::string& l, size_t& p, std::string& r) { // atom or quoted string
		r.clear(); if (p < l.size() && l[p] == '"') { ++p; while (p < l.size() && l[p] != '"') { if (l[p] == '\\') { ++p; if (p >= l.size() || (l[p] != '"' && l[p] != '\\')) return false; } r += l[p++]; } if (p >= l.size()) return false; ++p; return true; }
		size_t b = p; while (p < l.size() && !strchr("(){ %*\"\\", l[p]) && (unsigned char) l[p] > 32 && l[p] != 127) r += l[p++]; return p > b; }
	void command(const std::string& l) {
		if (++commands > 400) { violation("endless dialogue"); closed = true; return; } for (char ch : l) if (ch == '\r' || ch == '\n' || ch == 0) violation("bare CR, LF or NUL in a command: " + pbt::show(l));
		if (sasl) { if (l == "*") { log.push_back("*"); if (k.insist && insisted++ < 3) { challenge("go on"); return; } sasl.reset(); no("cancelled"); return; } std::string d = refUnB64(l); if (refB64(d) != l) { violation("malformed SASL response " + pbt::show(l)); sasl.reset(); no("syntax"); return; } saslGo(d, true); return; }
		std::string c = l; if (k.proto == 2) { size_t sp = l.find(' '); tag = l.substr(0, sp); if (sp == std::string::npos || tag.empty() || tag.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != std::string::npos) { violation("no tag: " + pbt::show(l)); return; } c = l.substr(sp + 1); }
		std::string v = c.substr(0, c.find(' ')), a = c.size() > v.size() ? c.substr(v.size() + 1) : ""; if (v != "AUTH" && v != "AUTHENTICATE") { log.push_back(v); if (!secure) plainLog.push_back(v); }
		if (v == "STARTTLS" || v == "STLS") { if (!a.empty() || secure) violation("misplaced " + l); if (authed && !k.preauth) violation("STARTTLS after the authentication"); switch (k.st) { case ST_REFUSE: badCmd("not supported"); break; case ST_BAD: k.proto == 2 ? put(tag + " NO not now") : k.proto == 0 ? put("454 4.7.0 TLS not available") : put("-ERR not now"); break; case ST_GARBAGE: put("\x16\x03\x01 what"); break; default: put(k.proto == 0 ? "220 2.0.0 go ahead" : k.proto == 1 ? "+OK begin" : tag + " OK begin"); if (k.st == ST_INJECT) out += k.inject; startNow = true; } return; }
		if (k.proto == 0) {
			if (v == "EHLO") { if (!k.esmtp) { put("502 what?"); return; } std::vector<std::string> x = { "server.example" }; if (k.advertise && !secure) x.push_back("STARTTLS"); x.push_back("SIZE 1000000"); if (!k.mechs.empty()) { std::string m; for (auto& y : k.mechs) m += (m.empty() ? "" : " ") + y; x.push_back((k.authEquals ? "AUTH=" : k.lower ? "auth " : "AUTH ") + m); if (k.authEquals && k.lower) x.push_back("AUTH " + m); } for (size_t i = 0 ; i < x.size() ; ++i) put((i + 1 < x.size() ? "250-" : "250 ") + x[i]); return; }
			if (v == "HELO") { put("250 server.example"); return; } if (v == "AUTH") { size_t sp = a.find(' '); std::string i = sp == std::string::npos ? "" : a.substr(sp + 1); saslStart(a.substr(0, sp), sp == std::string::npos ? nullptr : &i); return; }
			if (v == "NOOP") { put("250 2.0.0 ok"); return; } if (v == "QUIT") { quit = true; put("221 bye"); closed = true; return; } violation("unexpected command " + pbt::show(l)); badCmd("what?"); return;
		}
		if (k.proto == 1) {
			if (v == "CAPA") { put("+OK"); put("TOP"); if (k.advertise && !secure) put("STLS"); if (!k.mechs.empty()) { std::string m; for (auto& y : k.mechs) m += " " + y; put((k.lower ? "sasl" : "SASL") + m); } put("."); return; }
			if (v == "QUIT") { quit = true; put("+OK bye"); closed = true; return; } if (v == "NOOP") { if (authed) put("+OK"); else put("-ERR not in this state"); return; }
			if (authed) { violation("unexpected command after the authentication " + pbt::show(l)); put("-ERR"); return; }
			if (v == "USER") { gotUser = a; put("+OK"); return; } if (v == "PASS") { seen.push_back({ "PASS", gotUser, a }); if (gotUser == k.acc.user && a == k.acc.pass) { authed = true; put("+OK ready"); } else put("-ERR no"); return; }
			if (v == "APOP") { size_t sp = a.rfind(' '); if (k.stamp.empty() || sp == std::string::npos) { violation("misplaced " + pbt::show(l)); put("-ERR"); return; } seen.push_back({ "APOP", a.substr(0, sp), "" }); if (a.substr(0, sp) == k.acc.user && a.substr(sp + 1) == hexMd5(k.stamp + k.acc.pass)) { authed = true; put("+OK ready"); } else put("-ERR no"); return; }
			if (v == "AUTH") { size_t sp = a.find(' '); std::string i = sp == std::string::npos ? "" : a.substr(sp + 1); saslStart(a.substr(0, sp), sp == std::string::npos ? nullptr : &i); return; }
			violation("unexpected command " + pbt::show(l)); put("-ERR what?"); return;
		}
		if (v == "CAPABILITY") { put("* " + capsLine()); put(tag + " OK done"); return; } if (v == "NOOP") { put(tag + " OK done"); return; } if (v == "LOGOUT") { quit = true; put("* BYE"); put(tag + " OK bye"); closed = true; return; }
		if (v == "LOGIN") { size_t p = 0; std::string u, w; if (!imapString(a, p, u) || p >= a.size() || a[p++] != ' ' || !imapString(a, p, w) || p != a.size()) { violation("malformed " + pbt::show(l)); put(tag + " BAD syntax"); return; } seen.push_back({ "LOGINCMD", u, w }); if (k.loginDisabled) { violation("LOGIN though LOGINDISABLED"); put(tag + " NO disabled"); return; } if (authed) violation("LOGIN in the authenticated state"); if (u == k.acc.user && w == k.acc.pass) { authed = true; ok("welcome"); } else no("no"); return; }
		if (v == "AUTHENTICATE") { size_t sp = a.find(' '); std::string i = sp == std::string::npos ? "" : a.substr(sp + 1); saslStart(a.substr(0, sp), sp == std::string::npos ? nullptr : &i); return; }
		if (v == "LIST") { if (!authed) { violation("LIST before the authentication"); put(tag + " BAD no"); return; } if (a != "\"\" \"\"") violation("unexpected " + pbt::show(l)); put("* LIST (\\Noselect) \"/\" \"\""); put(tag + " OK done"); return; }
		violation("unexpected command " + pbt::show(l)); put(tag + " BAD what?");
	}
	void onData(std::string& i) {
		if (layer) { for (char c : i) secIn += (char) (c ^ 0x55); i.clear(); }
		for (;;) { std::string& b = layer ? secIn : i; if (quit || closed) { b.clear(); return; } size_t e = b.find("\r\n"); if (e == std::string::npos) return; std::string l = b.substr(0, e); b.erase(0, e + 2); bool was = layer; command(l); if (layer && !was) { for (char c : i) secIn += (char) (c ^ 0x55); i.clear(); } if (startNow) return; }
	}
};
