// A peer which speaks TLS (a GnuTLS server in the process, over memory buffers) around another peer, from the start or after an upgrade.
#pragma once
#include "net.hpp"
#include "certlab.hpp"
enum tlsFault { TLS_GOOD, TLS_EXPIRED, TLS_NAME, TLS_UNTRUSTED, TLS_GARBAGE, TLS_DROP, TLS_FAULTS };
struct tlsCerts { std::string ca, good, expired, name, untrusted; // DER; the server key is key 1, the authority's key 0
	static tlsCerts& get() { static tlsCerts x; return x; }
	tlsCerts() { time_t now = detHandler::clock(); certSpec a; a.cn = "Root"; a.ca = true; a.key = 0; a.from = now - 864000; a.to = now + 86400000; ca = makeCert(a, a, 0); certSpec x = a; x.key = 2; x.cn = "Other";
		certSpec s; s.cn = "server.example"; s.dns = { "server.example" }; s.key = 1; s.from = now - 86400; s.to = now + 864000; good = makeCert(s, a, 0); untrusted = makeCert(s, x, 2); certSpec e = s; e.to = now - 3600; expired = makeCert(e, a, 0); certSpec n = s; n.cn = "other.example"; n.dns = { "other.example" }; name = makeCert(n, a, 0); }
	const std::string& of(tlsFault f) const { return f == TLS_EXPIRED ? expired : f == TLS_NAME ? name : f == TLS_UNTRUSTED ? untrusted : good; }
};
struct tlsPeer : netPeer {
	std::shared_ptr<netPeer> app; std::function<bool()> wantTls; // asks the application whether TLS starts now (after what it has answered)
	bool implicit = false, active = false, up = false, failed = false; tlsFault fault = TLS_GOOD; std::string host; int port = 0;
	std::function<size_t(size_t, bool&)> appBudget; // how much of the application's output is sent; the rest is replaced by a close_notify
	std::string plainSeen; // what the application received outside TLS
	~tlsPeer() { end(); }
	void onConnect(const std::string& h, int p) { host = h; port = p; if (implicit) begin(); else { app->onConnect(h, p); drain(); } }
	void onData(std::string& i) {
		if (!active) { plainSeen += i; app->in += i; i.clear(); app->onData(app->in); drain(); if (wantTls && wantTls()) { app->in.clear(); begin(); } return; }
		raw += i; i.clear(); if (fault == TLS_GARBAGE && !up) { out += "220 I do not speak TLS\r\n* OK neither\r\n+OK nor this\r\n"; closed = true; return; } if (fault == TLS_DROP && !up) { closed = true; return; } pump();
	}
private:
	gnutls_session_t ss = nullptr; gnutls_certificate_credentials_t cred = nullptr; std::string raw;
	void end() { if (ss) gnutls_deinit(ss); if (cred) gnutls_certificate_free_credentials(cred); ss = nullptr; cred = nullptr; }
	void drain() { out += app->out; app->out.clear(); if (app->closed) closed = true; }
	static ssize_t push(gnutls_transport_ptr_t t, const void* d, size_t n) { static_cast<tlsPeer*>(t)->out.append((const char*) d, n); return (ssize_t) n; }
	static ssize_t pull(gnutls_transport_ptr_t t, void* d, size_t n) { auto* p = static_cast<tlsPeer*>(t); if (p->raw.empty()) { gnutls_transport_set_errno(p->ss, EAGAIN); return -1; } n = std::min(n, p->raw.size()); memcpy(d, p->raw.data(), n); p->raw.erase(0, n); return (ssize_t) n; }
	static int pullTimeout(gnutls_transport_ptr_t t, unsigned) { return static_cast<tlsPeer*>(t)->raw.empty() ? 0 : 1; }
	void begin() {
		active = true; if (fault == TLS_GARBAGE || fault == TLS_DROP) return;
		certMust(gnutls_init(&ss, GNUTLS_SERVER | GNUTLS_NONBLOCK), "server"); certMust(gnutls_set_default_priority(ss), "priority"); certMust(gnutls_certificate_allocate_credentials(&cred), "credentials");
		gnutls_x509_crt_t c; certMust(gnutls_x509_crt_init(&c), "cert"); const std::string& der = tlsCerts::get().of(fault); gnutls_datum_t d = { (unsigned char*) der.data(), (unsigned) der.size() }; certMust(gnutls_x509_crt_import(c, &d, GNUTLS_X509_FMT_DER), "cert"); certMust(gnutls_certificate_set_x509_key(cred, &c, 1, certKeys::get().k[1]), "key"); gnutls_x509_crt_deinit(c);
		certMust(gnutls_credentials_set(ss, GNUTLS_CRD_CERTIFICATE, cred), "credentials"); gnutls_transport_set_ptr(ss, this); gnutls_transport_set_push_function(ss, push); gnutls_transport_set_pull_function(ss, pull); gnutls_transport_set_pull_timeout_function(ss, pullTimeout);
	}
	void pump() {
		if (!ss) return;
		if (!up) { int r = gnutls_handshake(ss); if (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED) return; if (r < 0) { if (gnutls_error_is_fatal(r)) { failed = true; closed = true; } return; } up = true; if (implicit) app->onConnect(host, port); reply(); }
		for (;;) { char b[4096]; ssize_t n = gnutls_record_recv(ss, b, sizeof b); if (n > 0) { app->sent.append(b, (size_t) n); app->in.append(b, (size_t) n); app->onData(app->in); reply(); if (closed) return; continue; } if (n == 0) { closed = true; return; } if (n == GNUTLS_E_AGAIN || n == GNUTLS_E_INTERRUPTED) return; if (gnutls_error_is_fatal((int) n)) { failed = true; closed = true; return; } }
	}
	void reply() { std::string o; o.swap(app->out); bool cut = false; if (appBudget && !o.empty()) o.resize(appBudget(o.size(), cut)); for (size_t i = 0 ; i < o.size() ; ) { ssize_t n = gnutls_record_send(ss, o.data() + i, std::min<size_t>(o.size() - i, 16000)); if (n <= 0) { failed = true; closed = true; return; } i += (size_t) n; } if (cut) gnutls_bye(ss, GNUTLS_SHUT_WR); if (app->closed || cut) closed = true; }
};
