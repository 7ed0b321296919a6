// C40: sessions and services: the protocol decides the service; each service sees its own properties, from wherever they were set, and connects where they say.
#include "common.hpp"
#include "net.hpp"
#include "vmime/net/serviceFactory.hpp"
#include "vmime/security/defaultAuthenticator.hpp"
#include "vmime/security/sasl/defaultSASLAuthenticator.hpp"
#include <sys/stat.h>
#include <unistd.h>
namespace vn = vmime::net;
struct proto { const char* name; const char* prefix; bool store; int port; }; // port 0: local
static const proto P[] = { { "imap", "store.imap.", true, 143 }, { "imaps", "store.imaps.", true, 993 }, { "pop3", "store.pop3.", true, 110 }, { "pop3s", "store.pop3s.", true, 995 }, { "smtp", "transport.smtp.", false, 25 }, { "smtps", "transport.smtps.", false, 465 }, { "maildir", "store.maildir.", true, 0 }, { "sendmail", "transport.sendmail.", false, 0 } };
static const size_t NP = 8;
typedef std::map<std::string, std::string> props; // lower-case name -> value
static std::string mixed(Source& s, std::string n) { switch (s.draw(4)) { case 0: for (auto& c : n) c = (char) toupper((unsigned char) c); return n; case 1: for (auto& c : n) if (s.coin()) c = (char) toupper((unsigned char) c); return n; default: return n; } }
static props read(vn::session& S) { props r; for (auto& e : S.getProperties().getPropertyList()) { std::string k = lower(e->getName()); CHECK_MSG(!r.count(k), "property " << k << " is present twice"); r[k] = e->getValue(); } return r; }
static std::string show(const props& m) { std::string r; for (auto& e : m) if (e.first != "store.protocol" && e.first != "transport.protocol") r += e.first + "=" + pbt::esc(e.second) + "; "; return r; }
static bool truth(const std::string& v) { if (lower(v) == "true") return true; return atoi(v.c_str()) != 0; }
struct seen { std::string host; int port = -1; unsigned n = 0; std::string user, pass; };
struct refuse { };
struct peer : netPeer { // refuses, or is the simplest POP3 or SMTP server
	seen* w; int mode; // 0 refuse, 1 pop3, 2 smtp
	peer(seen* x, int m) : w(x), mode(m) { }
	void onConnect(const std::string& h, int p) { w->host = h; w->port = p; ++w->n; if (!mode) throw vmime::exceptions::connection_error("refused"); out += mode == 1 ? "+OK ready\r\n" : "220 ready\r\n"; }
	void onData(std::string& d) { size_t e; while ((e = d.find("\r\n")) != std::string::npos) { std::string l = d.substr(0, e); d.erase(0, e + 2); std::string v = lower(l.substr(0, 5));
		if (mode == 1) { if (v == "user ") { w->user = l.substr(5); out += "+OK\r\n"; } else if (v == "pass ") { w->pass = l.substr(5); out += "+OK\r\n"; } else if (v == "quit") { out += "+OK\r\n"; closed = true; } else if (v == "noop") out += "+OK\r\n"; else out += "-ERR unknown\r\n"; }
		else { if (v == "ehlo ") out += "250 hello\r\n"; else if (v == "noop") out += "250 ok\r\n"; else if (v == "quit") { out += "221 bye\r\n"; closed = true; } else out += "500 unknown\r\n"; } } }
};
static std::string scratch() { std::string d = pbt::scratchDir() + "/c40-" + std::to_string(getpid()); mkdir(d.c_str(), 0700); return d; }
struct live { vmime::shared_ptr<vn::service> sv; size_t p; int sess; bool open = false; };
static void run(Source& s, Ctx& c) {
	std::vector<vmime::shared_ptr<vn::session>> S; std::vector<props> M; std::vector<live> L; unsigned made = 0, connects = 0, readsN = 0; static unsigned dirs = 0;
	S.push_back(vn::session::create()); M.push_back(props());
	std::vector<std::string> made_dirs;
	auto textValue = [&](const std::string& n) -> std::string {
		if (n == "server.port") return s.weighted({ 8, 1 }) ? s.pick({ "junk", "", "99999999999" }) : std::to_string(1 + s.draw(65534));
		if (n == "server.address") return s.pick({ "mail.example.com", "192.0.2.7", "::1", "other.example", "localhost", "" });
		if (n == "auth.username" || n == "auth.password" || n == "auth.accesstoken") return s.pick({ "vincent", "my-password", "a b", "p@ss:w/rd", "user@example.com", "x", "100%" });
		if (n == "server.rootpath") return s.pick({ "/var/mail", "INBOX/x", "/" });
		if (n == "binpath") return s.pick({ "/usr/bin/mailer", "/opt/x" });
		return s.pick({ "true", "false", "TRUE", "1", "0", "False" }); };
	auto names = [&](size_t p) -> std::string {
		if (std::string(P[p].name) == "maildir") return s.pick({ "server.rootpath", "auth.username" }); if (std::string(P[p].name) == "sendmail") return "binpath";
		return s.pick({ "server.address", "server.address", "server.port", "server.port", "auth.username", "auth.password", "auth.accesstoken", "options.sasl", "options.sasl.fallback", "options.need-authentication", "options.apop", "connection.tls", "connection.tls.required" }); };
	unsigned ops = 0;
	while (ops < 40 && s.more(14)) {
		++ops; size_t si = s.draw(S.size() - 1); auto& se = S[si]; props& m = M[si]; size_t p = s.draw(NP - 1);
		switch (s.weighted({ 5, 1, 6, 4, 5, 3, 1, 1 })) {
		case 0: { // a property, set on the session or through a service
			live* l = nullptr; if (!L.empty() && s.coin()) { l = &L[s.draw(L.size() - 1)]; p = l->p; }
			std::string n = names(p), v = textValue(n), full = std::string(P[p].prefix) + n; props& mm = l ? M[l->sess] : m;
			if (n == "server.port" && s.coin()) { int x = 1 + (int) s.draw(65534); v = std::to_string(x); if (l) l->sv->setProperty(n, x); else se->getProperties()[mixed(s, full)] = x; }
			else if ((n.compare(0, 8, "options.") == 0 || n.compare(0, 11, "connection.") == 0) && s.coin()) { bool b = s.coin(); v = b ? "true" : "false"; if (l) l->sv->setProperty(n, b); else se->getProperties().setProperty(mixed(s, full), b); }
			else if (l) l->sv->setProperty(n, v); else se->getProperties()[mixed(s, full)] = v;
			NOTE(c, "session " << (l ? l->sess : (int) si) << ": " << full << " = " << pbt::esc(v) << (l ? " (through the service)" : "")); mm[full] = v; if (l) c.label("set through a service"); break; }
		case 1: { if (m.empty()) break; auto it = m.begin(); std::advance(it, s.draw(m.size() - 1)); NOTE(c, "session " << si << ": remove " << it->first); se->getProperties().removeProperty(mixed(s, it->first)); m.erase(it); break; }
		case 2: { // a service
			if (L.size() > 6) break; bool wantStore = s.weighted({ 5, 1 }) ? !P[p].store : P[p].store; std::string nm = mixed(s, P[p].name); bool unknown = s.oneIn(10); if (unknown) nm = s.pick({ "nntp", "imap4", "pop", "", "smtpss", "mbox", " imap" });
			vmime::shared_ptr<vmime::security::authenticator> au; if (s.oneIn(3)) au = vmime::make_shared<vmime::security::defaultAuthenticator>();
			unsigned how = (unsigned) s.draw(2); if (how == 2 && (nm.empty() || nm[0] == ' ')) how = 0; vmime::shared_ptr<vn::store> st; vmime::shared_ptr<vn::transport> tr; bool none = false; props before = m; std::string what;
			try {
				if (how == 0) { what = nm; if (wantStore) st = se->getStore(nm, au); else tr = se->getTransport(nm, au); }
				else if (how == 1) { std::string k = wantStore ? "store.protocol" : "transport.protocol"; what = k + "=" + nm; se->getProperties()[k] = nm; m[k] = before[k] = nm; if (wantStore) st = se->getStore(au); else tr = se->getTransport(au); }
				else { std::string host = s.pick({ "mail.example.com", "192.0.2.7", "imap.myserver.com", "h" }); int port = s.coin() ? 1 + (int) s.draw(65533) : 0; std::string user = s.coin() ? s.pick({ "vincent", "user@example.com", "a b", "u:x" }) : "", pass = user.empty() ? "" : s.pick({ "", "password", "p@ss:w/rd", "100%" }), path = s.oneIn(3) ? s.pick({ "/var/mail", "/a/b", "/x y" }) : "";
					vmime::utility::url u(nm, host, port ? (vmime::port_t) port : (vmime::port_t) vmime::utility::url::UNSPECIFIED_PORT, path, user, pass); if (s.coin()) u = vmime::utility::url(std::string(static_cast<vmime::string>(u))); what = static_cast<vmime::string>(u); NOTE(c, "URL " << pbt::esc(what));
					std::string pre = P[p].prefix; if (!unknown) { m[pre + "server.address"] = host; if (port) m[pre + "server.port"] = std::to_string(port); if (!path.empty()) m[pre + "server.rootpath"] = u.getPath(); if (!user.empty()) { m[pre + "auth.username"] = user; m[pre + "auth.password"] = pass; } }
					if (!path.empty()) CHECK_MSG(u.getPath() == path || "/" + u.getPath() == path, "path of the URL " << pbt::esc(what)); c.label("service by URL");
					if (wantStore) st = se->getStore(u, au); else tr = se->getTransport(u, au); }
			} catch (vmime::exceptions::no_factory_available&) { none = true; }
			NOTE(c, "session " << si << ": " << (wantStore ? "store" : "transport") << " for " << pbt::esc(what) << (none ? ": none" : ""));
			CHECK_EQ((int) none, (int) unknown, "no_factory_available for " + pbt::esc(what)); vmime::shared_ptr<vn::service> sv; if (st) sv = st; else sv = tr;
			if (unknown) { c.label("unknown protocol"); break; }
			CHECK_EQ((int) (bool) sv, (int) (wantStore == P[p].store), "a service of the right kind for " + pbt::esc(what));
			if (!sv) { c.label("protocol of the other kind"); props now = read(*se); std::string pre = P[p].prefix; for (auto& e : before) if (e.first.compare(0, pre.size(), pre)) CHECK_MSG(now.count(e.first) && now[e.first] == e.second, e.first << " changed"); m = now; break; }
			CHECK_EQ(lower(sv->getProtocolName()), std::string(P[p].name), "protocol of the service"); CHECK_EQ((int) (sv->getType() == vn::service::TYPE_STORE), (int) P[p].store, "type of the service"); CHECK_EQ(sv->getInfos().getPropertyPrefix(), std::string(P[p].prefix), "prefix of the properties");
			CHECK_MSG(sv->getSession() == se, "session of the service"); CHECK_MSG(!sv->isConnected(), "connected before connect()"); CHECK_MSG(sv->getAuthenticator() && (!au || sv->getAuthenticator() == au), "authenticator of the service");
			live l; l.sv = sv; l.p = p; l.sess = (int) si; L.push_back(l); ++made; c.label(std::string("service ") + P[p].name); break; }
		case 3: { // what the service sees
			if (L.empty()) break; live& l = L[s.draw(L.size() - 1)]; props& mm = M[l.sess]; const vn::serviceInfos& in = l.sv->getInfos(); auto av = in.getAvailableProperties(); std::set<std::string> have; for (auto& a : av) have.insert(a.getName());
			if (P[l.p].port) { for (const char* n : { "server.address", "server.port", "auth.username", "auth.password", "options.sasl", "options.sasl.fallback" }) CHECK_MSG(have.count(n), n << " is not available for " << P[l.p].name); } else CHECK_MSG(have.count(P[l.p].store ? "server.rootpath" : "binpath"), "path is not available");
			for (auto& a : av) { std::string n = a.getName(), full = std::string(P[l.p].prefix) + n; bool set = mm.count(full) != 0, req = (a.getFlags() & vn::serviceInfos::property::FLAG_REQUIRED) != 0; CHECK_EQ((int) in.hasProperty(S[l.sess], a), (int) set, "hasProperty(" + full + ")"); ++readsN;
				std::string dflt; if (n == "server.port") dflt = std::to_string(P[l.p].port); else if (n == "connection.tls" || n == "connection.tls.required" || n == "options.need-authentication") dflt = "false"; else if (n == "options.sasl.fallback") dflt = P[l.p].store ? "true" : "false"; else if (n.compare(0, 8, "options.") == 0) dflt = "true"; else dflt = a.getDefaultValue(); CHECK_EQ(a.getDefaultValue(), dflt, "default of " + full);
				CHECK_EQ((int) req, (int) (n == "server.address" || n == "server.rootpath" || n == "auth.username" || n == "auth.password"), full + " required");
				if (!set && req) { bool thrown = false; try { in.getPropertyValue<std::string>(S[l.sess], a); } catch (vmime::exceptions::no_such_property&) { thrown = true; } CHECK_MSG(thrown, full << " is required, not set, and was read"); continue; }
				std::string want = set ? mm[full] : dflt; CHECK_EQ(pbt::esc(in.getPropertyValue<std::string>(S[l.sess], a)), pbt::esc(want), full);
				if (a.getType() == vn::serviceInfos::property::TYPE_BOOLEAN) CHECK_EQ((int) in.getPropertyValue<bool>(S[l.sess], a), (int) truth(want), full);
				if (a.getType() == vn::serviceInfos::property::TYPE_INTEGER && !want.empty() && want.size() < 6 && isdigit((unsigned char) want[0])) CHECK_EQ(in.getPropertyValue<int>(S[l.sess], a), atoi(want.c_str()), full); } break; }
		case 4: { // connect
			if (L.empty()) break; live& l = L[s.draw(L.size() - 1)]; props& mm = M[l.sess]; std::string pre = P[l.p].prefix; seen w; ++connects;
			if (l.open) { CHECK_MSG(l.sv->isConnected(), P[l.p].name << ": not connected any more"); bool t = false; try { l.sv->connect(); } catch (vmime::exceptions::already_connected&) { t = true; } CHECK_MSG(t, "connected twice"); l.sv->disconnect(); CHECK_MSG(!l.sv->isConnected(), "connected after disconnect()"); l.open = false; break; }
			if (std::string(P[l.p].name) == "sendmail") { l.sv->connect(); CHECK_MSG(l.sv->isConnected() && !l.sv->isSecuredConnection(), "sendmail connected"); l.open = true; break; }
			if (std::string(P[l.p].name) == "maildir") {
				if (s.oneIn(4) && !mm.count(pre + "server.rootpath")) { bool t = false; try { l.sv->connect(); } catch (vmime::exceptions::no_such_property&) { t = true; } CHECK_MSG(t && !l.sv->isConnected(), "maildir without a root"); break; }
				std::string d = scratch() + "/m" + std::to_string(++dirs); made_dirs.push_back(d); mm[pre + "server.rootpath"] = d; S[l.sess]->getProperties()[pre + "server.rootpath"] = d; l.sv->connect(); struct stat sb; CHECK_MSG(stat(d.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode), "the root of the maildir was not created where the property says"); CHECK_MSG(l.sv->isConnected(), "maildir connected"); l.open = true; c.label("maildir connected"); break; }
			bool tls = truth(mm[pre + "connection.tls"]); if (mm[pre + "connection.tls"].empty()) mm.erase(pre + "connection.tls"); if (mm.count(pre + "connection.tls.required") && truth(mm[pre + "connection.tls.required"])) tls = true; int mode = 0; std::string nm = P[l.p].name; bool cred = mm.count(pre + "auth.username") && mm.count(pre + "auth.password");
			bool plain = !mm.count(pre + "options.sasl.fallback") || truth(mm[pre + "options.sasl.fallback"]) || (mm.count(pre + "options.sasl") && !truth(mm[pre + "options.sasl"])); if (nm == "pop3" && !tls && cred && plain && s.draw(2)) mode = 1; if (nm == "smtp" && !tls && !(mm.count(pre + "options.need-authentication") && truth(mm[pre + "options.need-authentication"])) && s.draw(2)) mode = 2;
			l.sv->setSocketFactory(vmime::make_shared<netSocketFactory>([&w, mode]() { return std::make_shared<peer>(&w, mode); })); l.sv->setTimeoutHandlerFactory(vmime::make_shared<netTimeoutFactory>());
			bool noAddr = !mm.count(pre + "server.address"), badPort = mm.count(pre + "server.port") && (mm[pre + "server.port"].empty() || !isdigit((unsigned char) mm[pre + "server.port"][0]) || mm[pre + "server.port"].size() > 5); std::string err;
			try { l.sv->connect(); } catch (vmime::exceptions::no_such_property&) { err = "missing"; } catch (vmime::exceptions::invalid_property_type&) { err = "type"; } catch (vmime::exception& e) { err = e.what(); }
			NOTE(c, "connect " << nm << " of session " << l.sess << ": " << w.host << ":" << w.port << " " << err);
			if (noAddr || badPort) { CHECK_MSG(w.n == 0 && (err == "missing" ? noAddr : err == "type" && badPort), "connect() with " << (noAddr ? "no address" : "a bad port") << ": " << err << ", " << w.n << " connections"); CHECK_MSG(!l.sv->isConnected(), "connected"); c.label("cannot connect"); break; }
			CHECK_EQ((int) w.n, 1, "connections made by connect() (" + err + ")"); CHECK_EQ(pbt::esc(w.host), pbt::esc(mm[pre + "server.address"]), "host connected to"); CHECK_EQ(w.port, mm.count(pre + "server.port") ? atoi(mm[pre + "server.port"].c_str()) : P[l.p].port, "port connected to");
			if (mode == 0) { CHECK_MSG(!err.empty() && err != "missing" && err != "type", "connect() to a refusing server: " << err); CHECK_MSG(!l.sv->isConnected(), "connected to a refusing server"); c.label("connection refused"); break; }
			CHECK_MSG(err.empty() && l.sv->isConnected(), nm << " did not connect: " << err); CHECK_MSG(!l.sv->isSecuredConnection(), "secured"); c.label("connected"); auto ci = l.sv->getConnectionInfos(); CHECK_MSG(ci && ci->getHost() == w.host && (int) ci->getPort() == w.port, "connection information");
			if (mode == 1) { CHECK_EQ(pbt::esc(w.user), pbt::esc(mm[pre + "auth.username"]), "user name sent"); CHECK_EQ(pbt::esc(w.pass), pbt::esc(mm[pre + "auth.password"]), "password sent"); }
			l.sv->noop(); l.sv->disconnect(); CHECK_MSG(!l.sv->isConnected(), "connected after disconnect()"); break; }
		case 5: { // credentials as authenticators give them
			if (L.empty()) break; live& l = L[s.draw(L.size() - 1)]; props& mm = M[l.sess]; std::string pre = P[l.p].prefix; vmime::shared_ptr<vmime::security::authenticator> au; if (s.coin()) au = vmime::make_shared<vmime::security::defaultAuthenticator>(); else au = vmime::make_shared<vmime::security::sasl::defaultSASLAuthenticator>(); au->setService(l.sv);
			for (int k = 0 ; k < 3 ; ++k) { std::string full = pre + (k == 0 ? "auth.username" : k == 1 ? "auth.password" : "auth.accesstoken"); std::string got; bool no = false; try { got = k == 0 ? au->getUsername() : k == 1 ? au->getPassword() : au->getAccessToken(); } catch (vmime::exceptions::no_auth_information&) { no = true; } CHECK_EQ((int) no, (int) !mm.count(full), "no_auth_information for " + full); if (!no) CHECK_EQ(pbt::esc(got), pbt::esc(mm[full]), full); } ++readsN; c.label("authenticator"); break; }
		case 6: { if (S.size() > 2) break; if (s.coin()) { S.push_back(vn::session::create(se->getProperties())); props cp = M[si]; M.push_back(cp); } else { S.push_back(vn::session::create()); M.push_back(props()); } NOTE(c, "another session"); c.label("several sessions"); break; }
		default: { auto f = vn::serviceFactory::getInstance(); auto r = f->getServiceByProtocol(mixed(s, P[p].name)); CHECK_MSG(r && r->getName() == P[p].name && (r->getType() == vn::service::TYPE_STORE) == P[p].store && r->getInfos().getPropertyPrefix() == P[p].prefix, "registered service " << P[p].name); CHECK_EQ(f->getServiceCount(), f->getServiceList().size(), "services"); bool in = false; for (size_t i = 0 ; i < f->getServiceCount() ; ++i) { CHECK_MSG(f->getServiceAt(i) == f->getServiceList()[i], "service " << i); in = in || f->getServiceAt(i)->getName() == P[p].name; } CHECK_MSG(in, P[p].name << " is listed"); } }
		for (size_t i = 0 ; i < S.size() ; ++i) { props now = read(*S[i]); CHECK_EQ(show(now), show(M[i]), "properties of session " + std::to_string(i)); }
	}
	for (auto& l : L) { if (l.open) CHECK_MSG(l.sv->isConnected(), "not connected any more"); } L.clear(); for (auto& d : made_dirs) { for (const char* e : { "/cur", "/new", "/tmp" }) rmdir((d + e).c_str()); rmdir(d.c_str()); }
	for (size_t i = 0 ; i < M.size() ; ++i) c.mix(show(M[i])); c.nontrivial(made > 1 && (connects || readsN));
}
Property makeProperty() {
	Property p; p.id = "C40"; p.run = run; p.init = installPlatform; p.quick = 250000; p.thorough = 8000000;
	p.rule = "histories of up to 40 operations over up to three sessions and the eight protocols: properties set on sessions and through services (texts, integers, booleans, names in any letter case) and removed; services obtained by name, by URL and by the protocol property, of the right and of the wrong kind, and for unknown protocols; every available property read through the service's information; connections to model servers which record the host and the port and refuse or let in; credentials read through both default authenticators; all properties of all sessions compared with a map after each; non-trivial: at least two services made, and one connection or reading";
	p.assumptions = { "defaults are those in the library's documentation and service descriptions; custom registered services are not generated" };
	return p;
}
