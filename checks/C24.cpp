// C24: digests of any bytes, fed in any way, equal those of another implementation.
// LIBS: -lgnutls
#include "common.hpp"
#include "vmime/security/digest/messageDigestFactory.hpp"
#include <gnutls/crypto.h>
namespace Dg = vmime::security::digest;
static std::string ref(gnutls_digest_algorithm_t a, const std::string& d) { unsigned char o[64]; if (gnutls_hash_fast(a, d.data(), d.size(), o)) throw std::runtime_error("gnutls"); return std::string((char*) o, gnutls_hash_get_len(a)); }
static std::string hex(const std::string& b) { static const char H[] = "0123456789abcdef"; std::string r; for (unsigned char c : b) { r += H[c >> 4]; r += H[c & 15]; } return r; }
static std::string data(Source& s) { switch (s.weighted({ 3, 4, 2, 1, 1 })) { case 0: return s.bytes(s.size(70)); case 1: { static const unsigned at[] = { 0, 55, 56, 63, 64, 119, 120, 127, 128, 191, 192, 256 }; unsigned n = at[s.draw(11)] + (unsigned) s.draw(4); return s.bulk(n > 2 ? n - 2 : 0); } case 2: return s.bulk(s.size(4000)); case 3: return std::string(s.draw(300), (char) s.draw(255)); default: return s.bulk(s.sizeNear(65536, { 56, 64, 65536 })); } }
static void run(Source& s, Ctx& c) {
	auto F = Dg::messageDigestFactory::getInstance(); bool md5 = s.coin(); auto alg = md5 ? GNUTLS_DIG_MD5 : GNUTLS_DIG_SHA1; std::string nm = md5 ? s.pick({ "md5", "MD5", "Md5" }) : s.pick({ "sha1", "SHA1", "Sha1" }); auto D = F->create(nm); c.label(md5 ? "md5" : "sha1");
	static bool bigDone = false; // once in each process: it takes some seconds
	if (s.draw(4999) == 4999 && !bigDone) {
		static const unsigned long long at[] = { 1ull << 29, (1ull << 29) - 1, (1ull << 29) + 7, (1ull << 29) + 4096, (1ull << 29) + 100000000 }; unsigned long long total = at[s.draw(4)]; size_t step = s.pick(std::vector<size_t>{ 1u << 20, 65537, 4000 }); std::string blk = s.bulk(step); c.label("more than 512 MB"); NOTE(c, nm << " of " << total << " bytes in pieces of " << step);
		gnutls_hash_hd_t h; if (gnutls_hash_init(&h, alg)) throw std::runtime_error("gnutls"); for (unsigned long long p = 0 ; p < total ; ) { size_t n = (size_t) std::min<unsigned long long>(step, total - p); D->update(reinterpret_cast <const vmime::byte_t*>(blk.data()), n); gnutls_hash(h, blk.data(), n); p += n; }
		unsigned char o[64]; gnutls_hash_deinit(h, o); D->finalize(); CHECK_EQ(D->getHexDigest(), hex(std::string((const char*) o, D->getDigestLength())), "digest of a large content"); c.mix(std::to_string(total) + nm); c.nontrivial(true); bigDone = true; return;
	}
	unsigned rounds = 1 + (unsigned) s.draw(2); CHECK_EQ(D->getDigestLength(), (size_t) (md5 ? 16 : 20), "length");
	for (unsigned r = 0 ; r < rounds ; ++r) {
		std::string t = data(s); c.mix(t); size_t p = 0; unsigned ups = 0; bool fin = false; NOTE(c, nm << " of " << t.size() << " bytes: " << hex(t.substr(0, 200))); int mode = (int) s.draw(3);
		auto take = [&](size_t n) { std::string x = t.substr(p, n); p += x.size(); return x; };
		while (!fin && (p < t.size() ? true : s.oneIn(4))) {
			size_t left = t.size() - p, n = mode == 0 ? left : mode == 1 ? s.draw(std::min<size_t>(left, 9)) : mode == 2 ? std::min<size_t>(left, s.pick(std::vector<size_t>{ 1, 63, 64, 65, 55, 56, 128, 8 })) : s.draw(left); if (ups > 300) n = left; std::string x = take(n), off = s.oneIn(3) ? "abc" : ""; const vmime::byte_t* b = reinterpret_cast <const vmime::byte_t*>(x.data()); std::string y = off + x + "tail"; const vmime::byte_t* yb = reinterpret_cast <const vmime::byte_t*>(y.data()); bool last = p == t.size() && s.oneIn(3); ++ups;
			int how = (int) s.draw(3); if (n == 1 && !last && s.coin()) { D->update(b[0]); NOTE(c, "update(byte)"); continue; } NOTE(c, (last ? "finalize(" : "update(") << how << ", " << n << ")");
			if (last) { fin = true; switch (how) { case 0: D->finalize(x); break; case 1: D->finalize(b, x.size()); break; default: D->finalize(yb, off.size(), x.size()); } } else switch (how) { case 0: D->update(x); break; case 1: D->update(b, x.size()); break; default: D->update(yb, off.size(), x.size()); }
		}
		bool abandoned = !fin && s.oneIn(6); if (!fin && !abandoned) D->finalize(); if (!abandoned) { std::string want = ref(alg, t); CHECK_EQ(hex(std::string((const char*) D->getDigest(), D->getDigestLength())), hex(want), "digest"); CHECK_EQ(D->getHexDigest(), hex(want), "hexadecimal form"); if (s.coin()) { CHECK_EQ(D->getHexDigest(), hex(want), "hexadecimal form, again"); } } else c.label("abandoned, then reset");
		if (ups > 1) c.nontrivial(t.size() > 0); if (r + 1 < rounds) { D->reset(); c.label("reset"); }
	}
	if (s.oneIn(40)) { auto v = F->getSupportedAlgorithms(); CHECK_MSG(std::find(v.begin(), v.end(), "md5") != v.end() && std::find(v.begin(), v.end(), "sha1") != v.end(), "supported algorithms"); try { F->create("nosuch"); FAIL("no exception for an unknown algorithm"); } catch (vmime::exceptions::no_digest_algorithm_available&) {} }
}
Property makeProperty() {
	Property p; p.id = "C24"; p.run = run; p.init = [] { installPlatform(); gnutls_global_init(); }; p.caseCpuSeconds = 120; p.caseWallSeconds = 200; p.quick = 300000; p.thorough = 10000000;
	p.rule = "bytes of any length (mostly around the block and padding boundaries, up to 64 KiB), fed to MD5 and SHA-1 by bytes, strings, buffers and buffers with offsets in random pieces, finalized with or without a last piece, reset and reused up to twice, and (once in each process) half a gigabyte or more: digest and hexadecimal form against GnuTLS (nettle); non-trivial: more than one update of a non-empty content";
	p.assumptions = { "contents of at most 640 MB" };
	return p;
}
