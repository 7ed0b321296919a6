// Generated X.509 certificates (made with GnuTLS, whatever back end vmime is built with).
#pragma once
#include "common.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include <gnutls/crypto.h>
#include <arpa/inet.h>
struct certKeys { // one pool per process; the last one is RSA
	std::vector<gnutls_x509_privkey_t> k;
	static certKeys& get() { static certKeys x; return x; }
	certKeys() { for (int i = 0 ; i < 9 ; ++i) { gnutls_x509_privkey_t p; gnutls_x509_privkey_init(&p); int r = i < 8 ? gnutls_x509_privkey_generate(p, GNUTLS_PK_ECDSA, GNUTLS_CURVE_TO_BITS(GNUTLS_ECC_CURVE_SECP256R1), 0) : gnutls_x509_privkey_generate(p, GNUTLS_PK_RSA, 2048, 0); if (r < 0) { fprintf(stderr, "harness: key generation failed\n"); abort(); } k.push_back(p); } }
};
struct certSpec {
	std::string cn, org; std::vector<std::string> dns, ips, mails; time_t from = 0, to = 0; bool ca = false, keyIds = false; int key = 0; std::string serial = "\x01";
};
inline void certMust(int r, const char* w) { if (r < 0) { fprintf(stderr, "harness: %s: %s\n", w, gnutls_strerror(r)); abort(); } }
inline std::string certKeyId(int key) { unsigned char b[64]; size_t n = sizeof b; certMust(gnutls_x509_privkey_get_key_id(certKeys::get().k[key], 0, b, &n), "key id"); return std::string((char*) b, n); }
// the certificate of s, with the issuer name (and key identifier) of 'issuer', signed by the key number signKey
inline std::string makeCert(const certSpec& s, const certSpec& issuer, int signKey) {
	gnutls_x509_crt_t c, i; certMust(gnutls_x509_crt_init(&c), "init"); certMust(gnutls_x509_crt_init(&i), "init"); auto& K = certKeys::get();
	auto dn = [&](gnutls_x509_crt_t x, const certSpec& q) { if (!q.org.empty()) certMust(gnutls_x509_crt_set_dn_by_oid(x, GNUTLS_OID_X520_ORGANIZATION_NAME, 0, q.org.data(), (unsigned) q.org.size()), "dn"); if (!q.cn.empty()) certMust(gnutls_x509_crt_set_dn_by_oid(x, GNUTLS_OID_X520_COMMON_NAME, 0, q.cn.data(), (unsigned) q.cn.size()), "cn"); };
	certMust(gnutls_x509_crt_set_version(c, 3), "version"); certMust(gnutls_x509_crt_set_serial(c, s.serial.data(), s.serial.size()), "serial"); dn(c, s); certMust(gnutls_x509_crt_set_key(c, K.k[s.key]), "key");
	certMust(gnutls_x509_crt_set_activation_time(c, s.from), "from"); certMust(gnutls_x509_crt_set_expiration_time(c, s.to), "to"); certMust(gnutls_x509_crt_set_basic_constraints(c, s.ca, -1), "bc"); certMust(gnutls_x509_crt_set_key_usage(c, s.ca ? GNUTLS_KEY_KEY_CERT_SIGN | GNUTLS_KEY_CRL_SIGN : GNUTLS_KEY_DIGITAL_SIGNATURE | GNUTLS_KEY_KEY_ENCIPHERMENT), "ku");
	bool first = true; auto san = [&](gnutls_x509_subject_alt_name_t t, const void* p, size_t n) { certMust(gnutls_x509_crt_set_subject_alt_name(c, t, p, (unsigned) n, first ? GNUTLS_FSAN_SET : GNUTLS_FSAN_APPEND), "san"); first = false; };
	for (auto& d : s.mails) san(GNUTLS_SAN_RFC822NAME, d.data(), d.size()); for (auto& d : s.dns) san(GNUTLS_SAN_DNSNAME, d.data(), d.size()); for (auto& d : s.ips) { unsigned char b[16]; int v6 = d.find(':') != std::string::npos; if (inet_pton(v6 ? AF_INET6 : AF_INET, d.c_str(), b) == 1) san(GNUTLS_SAN_IPADDRESS, b, v6 ? 16 : 4); }
	bool nul = false; for (auto& d : s.dns) nul = nul || d.find('\0') != std::string::npos;
	if (nul) { auto tlv = [](unsigned char t, const std::string& v) { std::string r(1, (char) t); if (v.size() < 128) r += (char) v.size(); else if (v.size() < 256) { r += "\x81"; r += (char) v.size(); } else { r += "\x82"; r += (char) (v.size() >> 8); r += (char) v.size(); } return r + v; }; std::string x; for (auto& d : s.mails) x += tlv(0x81, d); for (auto& d : s.dns) x += tlv(0x82, d); for (auto& d : s.ips) { unsigned char b[16]; int v6 = d.find(':') != std::string::npos; inet_pton(v6 ? AF_INET6 : AF_INET, d.c_str(), b); x += tlv(0x87, std::string((char*) b, v6 ? 16 : 4)); } x = tlv(0x30, x); certMust(gnutls_x509_crt_set_extension_by_oid(c, "2.5.29.17", x.data(), x.size(), 0), "san"); }
	if (s.keyIds) { std::string a = certKeyId(s.key), b = certKeyId(issuer.key); certMust(gnutls_x509_crt_set_subject_key_id(c, a.data(), a.size()), "ski"); certMust(gnutls_x509_crt_set_authority_key_id(c, b.data(), b.size()), "aki"); }
	certMust(gnutls_x509_crt_set_version(i, 3), "version"); dn(i, issuer); certMust(gnutls_x509_crt_set_key(i, K.k[signKey]), "key"); if (s.keyIds) { std::string b = certKeyId(issuer.key); certMust(gnutls_x509_crt_set_subject_key_id(i, b.data(), b.size()), "ski"); }
	certMust(gnutls_x509_crt_sign2(c, i, K.k[signKey], GNUTLS_DIG_SHA256, 0), "sign");
	gnutls_datum_t d; certMust(gnutls_x509_crt_export2(c, GNUTLS_X509_FMT_DER, &d), "export"); std::string r((char*) d.data, d.size); { gnutls_x509_crt_t q; gnutls_x509_crt_init(&q); certMust(gnutls_x509_crt_import(q, &d, GNUTLS_X509_FMT_DER), "the generated certificate"); gnutls_x509_crt_deinit(q); } gnutls_free(d.data); gnutls_x509_crt_deinit(c); gnutls_x509_crt_deinit(i); return r;
}
inline std::string toPem(const std::string& der) { std::string b = refB64(der), r = "-----BEGIN CERTIFICATE-----\n"; for (size_t i = 0 ; i < b.size() ; i += 64) r += b.substr(i, 64) + "\n"; return r + "-----END CERTIFICATE-----\n"; }
inline std::string gnutlsHash(gnutls_digest_algorithm_t a, const std::string& x) { unsigned char b[64]; gnutls_hash_fast(a, x.data(), x.size(), b); return std::string((char*) b, gnutls_hash_get_len(a)); }
