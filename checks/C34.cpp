// C34: certificate verification, against chains made to be valid, or invalid in one known way.
// FLAVOURS: main alt
// LIBS: -lgnutls
#include "certlab.hpp"
#include "vmime/security/cert/defaultCertificateVerifier.hpp"
#include "vmime/security/cert/X509Certificate.hpp"
#include "vmime/security/cert/certificateChain.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"
#include "vmime/utility/outputStreamStringAdapter.hpp"
using namespace vmime::security::cert;
typedef vmime::shared_ptr<X509Certificate> certP;
static certP imp(const std::string& der) { return X509Certificate::import(reinterpret_cast<const byte_t*>(der.data()), der.size()); }
static time_t T0;
// 1: named, 0: not named, -1: left open
static int nameMatch(const std::string& pat0, const std::string& host0) {
	if (pat0.find('\0') != std::string::npos) return 0; std::string p = lower(pat0), h = lower(host0); if (h.empty() || h[0] == '.' || h.find("..") != std::string::npos) return p == h || h.empty() ? 0 : -1;
	if (h.find('*') != std::string::npos) return p == h ? -1 : 0; if (h.back() == '.' || p.back() == '.') { std::string a = p, b = h; if (a.back() == '.') a.pop_back(); if (b.back() == '.') b.pop_back(); if (a == b) return p == h ? 1 : -1; return nameMatch(a, b) == 0 ? 0 : -1; }
	size_t st = p.find('*'); if (st == std::string::npos) return p == h; 
	if (p.compare(0, 2, "*.") != 0 || p.find('*', 1) != std::string::npos) { // partial or misplaced: may only ever match inside one label
		std::string a = p.substr(0, st), b = p.substr(st + 1); if (b.find('*') != std::string::npos || h.size() < a.size() + b.size() || h.compare(0, a.size(), a) != 0 || h.compare(h.size() - b.size(), b.size(), b) != 0) return b.find('*') != std::string::npos ? -1 : 0; return h.substr(a.size(), h.size() - a.size() - b.size()).find('.') == std::string::npos ? -1 : 0; }
	std::string rest = p.substr(1); size_t d = h.find('.'); if (d == std::string::npos || d == 0) return 0; if (h.substr(d) != rest) return 0; return rest.find('.', 1) == std::string::npos ? -1 : 1;
}
static bool isIp(const std::string& h) { unsigned char b[16]; return inet_pton(AF_INET, h.c_str(), b) == 1 || inet_pton(AF_INET6, h.c_str(), b) == 1; }
static int named(const certSpec& l, const std::string& host) {
	if (isIp(host)) { unsigned char a[16], b[16]; int v6 = host.find(':') != std::string::npos, f = v6 ? AF_INET6 : AF_INET; inet_pton(f, host.c_str(), a); for (auto& i : l.ips) if ((i.find(':') != std::string::npos) == (bool) v6) { inet_pton(f, i.c_str(), b); if (!memcmp(a, b, v6 ? 16 : 4)) return 1; } for (auto& d : l.dns) if (d == host) return -1; return l.cn == host ? -1 : 0; }
	int r = 0; for (auto& d : l.dns) { int m = nameMatch(d, host); if (m == 1) r = 1; else if (m == -1 && r == 0) r = -1; } if (r == 1) return 1;
	int m = l.cn.empty() ? 0 : nameMatch(l.cn, host); if (m && l.dns.empty() && l.ips.empty()) { if (m == 1) return l.mails.empty() ? 1 : -1; return -1; } if (m) return -1; return r; // the CN next to other names: left open
}
static std::string genHost(Source& s) { std::string r = s.pick({ "mail", "server", "a", "imap-1", "x9" }); r += s.pick({ ".example", ".example.org", ".dept.example.com", ".b.test" }); return r; }
static std::string vary(Source& s, const std::string& h) {
	switch (s.draw(13)) { case 0: return h; case 1: { std::string r = h; for (auto& ch : r) if (s.coin()) ch = (char) toupper((unsigned char) ch); return r; } case 2: return s.pick({ "www.", "x.", "a.b.", "evil", "-", "." }) + h; case 3: return h.substr(1 + s.draw(h.size() - 2)); case 4: { size_t d = h.find('.'); return d == std::string::npos ? h : h.substr(d + 1); } case 5: return h + s.pick({ ".", ".evil.test", "x", ".com" }); case 6: return h.substr(0, h.size() - 1 - s.draw(h.size() - 2));
	case 7: { size_t d = h.find('.'); return d == std::string::npos ? h : s.pick({ "other", "mail", "q" }) + h.substr(d); } case 8: return std::string(s.pick({ "192.0.2.7", "::1", "2001:db8::7", "127.0.0.1" })); case 9: { std::string r = h; r[s.draw(r.size() - 1)] = 'q'; return r; } case 10: { size_t d = h.find('.'); return d == std::string::npos ? h : "evil" + h.substr(d + 1); } case 11: return ""; default: return h; }
}
static void certChecks(Source& s, Ctx& c, const std::string& der, const certSpec& sp, const std::vector<std::string>& ders) {
	// reading, writing and describing one certificate
	certP a = imp(der); CHECK_MSG(a, "import() of a DER certificate failed"); std::string pem = toPem(der); certP b = imp(pem); CHECK_MSG(b, "import() of a PEM certificate failed");
	CHECK_MSG(a->equals(b) && b->equals(a), "DER and PEM forms differ"); auto enc = a->getEncoded(); CHECK_EQ(std::string(enc.begin(), enc.end()), der, "getEncoded()");
	strOut o; b->write(o, X509Certificate::FORMAT_DER); CHECK_EQ(o.s, der, "write(DER)"); strOut q; a->write(q, X509Certificate::FORMAT_PEM); certP e = imp(q.s); CHECK_MSG(e && e->equals(a), "write(PEM) does not read back");
	CHECK_EQ(a->getType(), vmime::string("X.509"), "type"); { auto n = a->getSerialNumber(); size_t z = 0; std::string raw(n.begin(), n.end()), w = sp.serial; while (z + 1 < w.size() && w[z] == 0) ++z; w = w.substr(z); z = 0; while (z + 1 < raw.size() && raw[z] == 0) ++z; raw = raw.substr(z); CHECK_EQ(raw, w, "serial number"); }
	for (int d = 0 ; d < 2 ; ++d) { vmime::datetime t = d ? a->getExpirationDate() : a->getActivationDate(); vmime::datetime want((time_t) (d ? sp.to : sp.from)); CHECK_MSG(t == want, (d ? "expiration" : "activation") << " date " << t.generate() << " instead of " << want.generate()); }
	auto fp = a->getFingerprint(s.coin() ? X509Certificate::DIGEST_SHA1 : X509Certificate::DIGEST_SHA1); std::string w = gnutlsHash(GNUTLS_DIG_SHA1, der), f(fp.begin(), fp.end());
#if VMIME_TLS_SUPPORT_LIB_IS_GNUTLS
	CHECK_EQ(f, w, "SHA-1 fingerprint"); fp = a->getFingerprint(X509Certificate::DIGEST_SHA256); CHECK_EQ(std::string(fp.begin(), fp.end()), gnutlsHash(GNUTLS_DIG_SHA256, der), "SHA-256 fingerprint"); fp = a->getFingerprint(X509Certificate::DIGEST_MD5); CHECK_EQ(std::string(fp.begin(), fp.end()), gnutlsHash(GNUTLS_DIG_MD5, der), "MD5 fingerprint");
#endif
	std::string all; for (auto& x : ders) all += toPem(x) + (s.coin() ? "\n" : ""); std::vector<certP> l; if (s.coin()) { vmime::utility::inputStreamStringAdapter is(all); X509Certificate::import(is, l); } else { chunkIn is(all, genCuts(s)); X509Certificate::import(is, l); } CHECK_EQ(l.size(), ders.size(), "number of certificates in a list"); for (size_t i = 0 ; i < l.size() ; ++i) { auto en = l[i]->getEncoded(); CHECK_EQ(std::string(en.begin(), en.end()), ders[i], "certificate of a list"); }
	{ chunkIn is(s.coin() ? der : pem, genCuts(s)); certP x = X509Certificate::import(is); CHECK_MSG(x && x->equals(a), "import() from a stream"); }
	// what is no certificate
	std::string junk = s.coin() ? der : pem; switch (s.draw(3)) { case 0: junk = junk.substr(0, s.draw(junk.size() - 1)); break; case 1: junk[s.draw(junk.size() - 1)] ^= (char) (1 << s.draw(7)); break; case 2: junk = s.bytes(60); break; default: junk.insert(s.draw(junk.size()), s.bytes(8)); }
	chunkIn is(junk, {}); certP x = X509Certificate::import(is); if (x) { x->getEncoded(); x->getSerialNumber(); x->getIssuerString(); x->getVersion(); x->getFingerprint(X509Certificate::DIGEST_SHA256); std::vector<std::string> nm; x->verifyHostName("a.example", &nm); x->checkIssuer(a); x->verify(a); if (x->getFingerprint(X509Certificate::DIGEST_SHA256) != a->getFingerprint(X509Certificate::DIGEST_SHA256)) CHECK_MSG(!x->equals(a) && !a->equals(x), "different certificates are equal"); }
	std::vector<certP> jl; X509Certificate::import(reinterpret_cast<const byte_t*>(junk.data()), junk.size(), jl); c.label("one certificate");
}
static void run(Source& s, Ctx& c) {
	T0 = time(NULL); detHandler::clock() = (unsigned long) T0;
	// names
	certSpec leaf; std::string host = genHost(s); leaf.keyIds = s.coin(); auto pat = [&]() -> std::string { std::string h = s.draw(3) ? host : genHost(s); size_t d = h.find('.'); switch (s.draw(9)) { case 0: return "*" + h.substr(d); case 1: return "*." + h; case 2: return s.pick({ "m*", "*l", "m*l", "*", "**" }) + h.substr(d); case 3: return h.substr(0, d) + ".*" + (h.find('.', d + 1) == std::string::npos ? "" : h.substr(h.find('.', d + 1))); case 4: return vary(s, h); case 5: return h + std::string(1, '\0') + ".evil.test"; default: return h; } };
	unsigned nd = (unsigned) s.draw(3); for (unsigned i = 0 ; i < nd ; ++i) { std::string p = pat(); if (!p.empty()) leaf.dns.push_back(p); } if (s.oneIn(4)) leaf.ips.push_back(s.pick({ "192.0.2.7", "192.0.2.70", "2001:db8::7" })); if (s.oneIn(6)) leaf.mails.push_back(s.coin() ? host : "x@" + host);
	if (leaf.dns.empty() || s.oneIn(3)) { std::string p = pat(); if (p.find('\0') == std::string::npos && p.size() <= 64) leaf.cn = p; } if (leaf.cn.empty() || s.oneIn(4)) leaf.org = "Leaf"; 
	std::string asked = s.coin() ? host : vary(s, host);
	// chain: leaf, intermediates, root
	auto& K = certKeys::get(); (void) K; unsigned ni = (unsigned) s.draw(3); std::vector<certSpec> sp; sp.push_back(leaf); for (unsigned i = 0 ; i < ni + 1 ; ++i) { certSpec x; x.ca = true; x.keyIds = s.coin(); x.org = "CA"; x.cn = (i == ni ? "Root " : "Intermediate ") + std::to_string(i + 1); sp.push_back(x); }
	static const time_t W[] = { 3600, 86400, 400 * 86400, 3000 * 86400l }; for (size_t i = 0 ; i < sp.size() ; ++i) { sp[i].key = (int) i; sp[i].from = T0 - W[s.draw(3)]; sp[i].to = s.oneIn(6) ? (time_t) (s.coin() ? 2529000000l : 4102444801l) : T0 + W[s.draw(3)]; sp[i].serial = s.str(1 + s.draw(11), "\x01\x02\x7f\x33z"); if (sp[i].serial.empty()) sp[i].serial = "\x05"; sp[i].serial[0] &= 0x7f; if (sp[i].serial[0] == 0) sp[i].serial[0] = 1; }
	if (s.oneIn(8)) sp.back().key = 8; size_t n = sp.size();
	std::vector<int> signer(n); for (size_t i = 0 ; i < n ; ++i) signer[i] = sp[i + 1 < n ? i + 1 : i].key; std::vector<certSpec> iss(n); 
	// one defect (or none)
	bool ok = true, open = false; std::string def = "none"; size_t at = s.draw(n - 1); bool withRoot = s.coin(), rootTrusted = true; size_t len = withRoot ? n : n - 1; if (at >= len) at = len - 1; 
	enum { NONE, EXPIRED, EARLY, FORGED, WRONGDN, NOTCA, UNTRUSTED, TWIN, GAP, REORDER, EXTRA, TAMPER, EMPTY, LEAFONLY }; int k = s.oneIn(3) ? NONE : (int) s.draw(13);
	switch (k) {
	case EXPIRED: sp[at].from = T0 - 4000 * 86400l; sp[at].to = T0 - W[s.draw(3)]; ok = false; def = "expired"; break;
	case EARLY: sp[at].from = T0 + W[s.draw(3)]; sp[at].to = T0 + 4000 * 86400l; ok = false; def = "not yet valid"; break;
	case FORGED: signer[at] = 7; if (s.coin()) sp[at].key = sp[at].key == 8 ? 8 : 6; ok = false; def = "signed by another key"; break;
	default: break; }
	for (size_t i = 0 ; i < n ; ++i) iss[i] = sp[i + 1 < n ? i + 1 : i]; if (k == FORGED && at > 0) signer[at - 1] = sp[at].key;
	if (k == FORGED && at + 1 == n && !s.coin()) {}
	if (k == WRONGDN) { iss[at].cn += "x"; ok = false; def = "wrong issuer name"; if (at + 1 == n) { sp[at].cn += ""; } }
	if (k == NOTCA && n > 2) { size_t j = 1 + s.draw(n - 3); sp[j].ca = false; ok = false; def = "issuer is no authority"; if (j >= len) { len = n - 1; } } 
	std::vector<std::string> der(n); for (size_t i = 0 ; i < n ; ++i) der[i] = makeCert(sp[i], iss[i], signer[i]);
	std::vector<std::string> sent(der.begin(), der.begin() + len); 
	// trust
	std::vector<std::string> roots, trusted; std::string rootDer = der[n - 1]; certSpec other; other.ca = true; other.org = "CA"; other.cn = "Other root"; other.key = 5; other.from = T0 - 86400; other.to = T0 + 86400; certSpec twin = sp[n - 1]; twin.key = 5;
	if (k == UNTRUSTED) { rootTrusted = false; ok = false; def = "untrusted root"; } if (k == TWIN) { rootTrusted = false; ok = false; def = "trusted root of the same name, with another key"; roots.push_back(makeCert(twin, twin, 5)); }
	if (rootTrusted) roots.push_back(rootDer); if (s.coin()) roots.insert(s.coin() ? roots.begin() : roots.end(), makeCert(other, other, 5));
	if ((k == EXPIRED || k == EARLY) && at + 1 == n && !withRoot) open = true; // the root's own dates when it is not part of the chain
	if (k == FORGED && at + 1 == n) { open = true; } if (k == WRONGDN && at + 1 == n) open = true; // a root's own signature and issuer: not part of the chain that leads to it
	if (k == GAP) { if (len > 2) { sent.erase(sent.begin() + 1 + s.draw(len - 3)); ok = false; def = "missing intermediate"; } else if (!withRoot && n > 2) { sent.resize(1); ok = false; def = "missing intermediate"; } }
	if (k == REORDER && len > 1) { size_t i = s.draw(len - 1), j = s.draw(len - 1); if (i != j) { std::swap(sent[i], sent[j]); ok = false; def = "reordered"; if (i && j) open = true; } }
	if (k == EXTRA) { certSpec x = other; if (s.coin()) sent.push_back(makeCert(other, other, 5)); else sent.push_back(der[s.draw(n - 1)]); (void) x; open = true; def = "certificates after the root or its child"; }
	if (k == TAMPER) { std::string& d = sent[at]; size_t end = d.size() - 100; if (end > 20) { d[20 + s.draw(end - 21)] ^= (char) (1 << s.draw(7)); ok = false; def = "modified after signing"; if (!imp(d)) { c.label("modified: no certificate"); return; } } }
	if (k == EMPTY) { sent.clear(); ok = false; def = "no certificate"; }
	if (k == LEAFONLY) { rootTrusted = false; roots.clear(); ok = true; def = "only the leaf is trusted"; trusted.push_back(der[0]); if (s.oneIn(4)) trusted.insert(trusted.begin(), der[n - 1]); }
	else if ((k == EXPIRED || k == EARLY) && s.coin()) { if (s.coin()) roots.clear(); trusted.push_back(der[0]); def += ", with a trusted leaf"; }
	else if (s.oneIn(6)) { trusted.push_back(s.coin() ? der[n - 1] : makeCert(other, other, 5)); if (n > 1 && s.coin()) trusted.push_back(der[1]); }
	// names
	int nm = k == EMPTY ? 0 : named(sp[0], asked); bool accept = ok && nm == 1, reject = (!ok && !open) || nm == 0;
	if (open && nm != 0) reject = false; if (open) accept = false;
	// an anchor that is no authority or an own root in the middle
	NOTE(c, "chain of " << sent.size() << " (leaf CN " << pbt::show(leaf.cn) << " DNS " << pbt::show(leaf.dns) << " IP " << pbt::show(leaf.ips) << "), host " << pbt::show(asked) << ", defect: " << def << " at " << at << ", " << roots.size() << " roots, " << trusted.size() << " trusted; names " << nm); c.mix(def + asked + pbt::show(leaf.dns) + leaf.cn + std::to_string(n * 10 + at));
	std::vector<vmime::shared_ptr<certificate>> cv; for (auto& d : sent) { certP x = imp(d); CHECK_MSG(x, "import() failed"); cv.push_back(x); } auto chain = vmime::make_shared<certificateChain>(cv); std::vector<certP> rv, tv; for (auto& d : roots) rv.push_back(imp(d)); for (auto& d : trusted) tv.push_back(imp(d));
	auto v = vmime::make_shared<defaultCertificateVerifier>(); v->setX509RootCAs(rv); v->setX509TrustedCerts(tv); bool got = true; std::string err; try { v->verify(chain, asked); } catch (const certificateException& e) { got = false; err = std::string(e.name()) + ": " + e.what(); } catch (const vmime::exception& e) { got = false; err = std::string(e.name()) + ": " + e.what(); }
	if (got) CHECK_MSG(!reject, "accepted a certificate chain" << (!ok && !open ? " with a defect: " + def : std::string(" that does not name the host ")) << " (host " << pbt::show(asked) << ")"); else CHECK_MSG(!accept, "rejected a valid chain: " << err);
	c.label("defect: " + def); c.label(got ? "accepted" : "rejected"); c.label(nm == 1 ? "host named" : nm ? "name left open" : "host not named"); c.nontrivial();
	if (!cv.empty()) { std::vector<std::string> names; certP l = vmime::dynamicCast<X509Certificate>(cv[0]); bool hm = l->verifyHostName(asked, s.coin() ? &names : NULL); if (k != REORDER && k != TAMPER) { if (nm == 1) CHECK_MSG(hm, "verifyHostName() refuses a name of the certificate"); if (nm == 0 && k != TAMPER) CHECK_MSG(!hm, "verifyHostName() accepts a name the certificate does not hold"); } }
	// links
	if (n > 1 && s.coin()) { size_t i = s.draw(n - 1), j = s.draw(n - 1); certP a = imp(der[i]), b = imp(der[j]); bool want = k == NONE && (j == i + 1 || (i == j && i == n - 1)); if (k == NONE) { CHECK_EQ(a->checkIssuer(b), want, "checkIssuer() of " + std::to_string(i) + " and " + std::to_string(j)); if (j == n - 1) CHECK_EQ(a->verify(b), want, "verify()"); } }
	if (s.oneIn(3)) certChecks(s, c, der[0], sp[0], sent.empty() ? std::vector<std::string>(1, der[0]) : std::vector<std::string>(der));
}
Property makeProperty() { Property p; p.id = "C34"; p.run = run; p.quick = 18000; p.thorough = 400000; p.caseCpuSeconds = 20; p.caseWallSeconds = 40; p.workers = 8; p.init = []() { installPlatform(); certKeys::get(); };
	p.rule = "a generated chain (leaf, 0-3 intermediates, root sent or not; ECDSA and RSA keys; with and without key identifiers; validity periods of hours to the year 2100; names in DNS, IP and e-mail alternative names and the common name, wildcards in any place, embedded NUL), valid or with one of 12 known defects at a generated place (expired, not yet valid, signed by another key, wrong issuer name, issuer that is no authority, untrusted root, trusted root of the same name, gap, reordering, modified bytes, empty chain, extraneous certificates), generated trust stores, and a host name equal to or varied from those of the leaf; non-trivial: the verifier decided";
	p.assumptions = { "left open: partial wildcards and wildcards above a top-level domain, the common name of a certificate which also has alternative names, trailing dots, the dates, signature and issuer fields of a root itself, and extraneous or reordered certificates after the leaf when a sound path exists", "the system clock does not move by an hour during a run" };
	return p; }
