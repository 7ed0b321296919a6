#include "gen.hpp"
#include "vmime/utility/datetimeUtils.hpp"
#include <ctime>
// Dates against an independent calendar (days since 1970-03-01-based eras).

// the clock vmime's POSIX platform handler reads
static time_t fakeNow = 0; static bool fakeClock = false;
extern "C" time_t time(time_t* t) noexcept { time_t v; if (fakeClock) v = fakeNow; else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }

typedef long long ll; typedef vmime::utility::datetimeUtils DU;
static ll days(ll y, ll m, ll d) { y -= m <= 2; ll era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static void civil(ll z, ll& y, ll& m, ll& d) { z += 719468; ll era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400; ll doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2; }
static int wday(ll z) { return (int) (((z % 7) + 11) % 7); }  // 0 = Sunday; day 0 is a Thursday
static bool leap(ll y) { return days(y + 1, 1, 1) - days(y, 1, 1) == 366; }
static int mdays(ll y, ll m) { return (int) (m == 12 ? days(y + 1, 1, 1) - days(y, 12, 1) : days(y, m + 1, 1) - days(y, m, 1)); }
// ISO week: that of the Thursday of the same Monday-based week
static int isoWeek(ll y, ll m, ll d) { ll z = days(y, m, d); ll th = z - (wday(z) + 6) % 7 + 3; ll ty, tm, td; civil(th, ty, tm, td); return (int) ((th - days(ty, 1, 1)) / 7 + 1); }

struct dt { ll y; int mo, d, h, mi, s, z; };
static ll inst(const dt& t) { return ((days(t.y, t.mo, t.d) * 24 + t.h) * 60 + t.mi - t.z) * 60 + t.s; }
static dt at(ll sec, int zone) { ll v = sec + zone * 60ll, z = v >= 0 ? v / 86400 : -((-v + 86399) / 86400); ll r = v - z * 86400, y, m, d; civil(z, y, m, d); return dt{ y, (int) m, (int) d, (int) (r / 3600), (int) (r / 60 % 60), (int) (r % 60), zone }; }
static vmime::datetime V(const dt& t) { return vmime::datetime((int) t.y, t.mo, t.d, t.h, t.mi, t.s, t.z); }
static dt F(const vmime::datetime& v) { return dt{ v.getYear(), v.getMonth(), v.getDay(), v.getHour(), v.getMinute(), v.getSecond(), v.getZone() }; }
static std::string S(const dt& t) { char b[160]; snprintf(b, sizeof b, "%lld-%02d-%02d %02d:%02d:%02d zone %d", t.y, t.mo, t.d, t.h, t.mi, t.s, t.z); return b; }
static const char* const WD[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
static const char* const MO[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };

static int genZone(Source& s) { switch (s.draw(4)) { case 0: return (int) s.range(-12, 14) * 60; case 1: return (int) s.range(-840, 840); case 2: return (int) s.range(-5999, 5999); case 3: return (int) s.pickInt({ 0, 1, -1, 59, -59, 60, -60, 1439, 1440, -1439, -1440, 1441, 5999, -5999, 345, -210 }); default: return 0; } }
static dt genDate(Source& s) {
	dt t; switch (s.draw(3)) { case 0: t.y = s.range(1970, 2040); break; case 1: t.y = s.range(1900, 9999); break; case 2: t.y = s.pickInt({ 1900, 2000, 2100, 1999, 2001, 2004, 2400, 9999, 1972, 1600 }); break; default: t.y = s.range(1583, 9999); }
	if (s.oneIn(3)) { t.mo = (int) s.pickInt({ 1, 12, 2, 3 }); t.d = s.coin() ? 1 + (int) s.draw(2) : mdays(t.y, t.mo) - (int) s.draw(2); } else { t.mo = (int) s.range(1, 12); t.d = (int) s.range(1, mdays(t.y, t.mo)); }
	bool e = s.oneIn(3); t.h = e ? (int) s.pickInt({ 0, 23, 12, 1 }) : (int) s.draw(23); t.mi = e ? (int) s.pickInt({ 0, 59, 1, 30 }) : (int) s.draw(59); t.s = e ? (int) s.pickInt({ 0, 59 }) : (int) s.draw(59);
	t.z = genZone(s); return t;
}
static std::string text(const dt& t) { char b[200]; int a = t.z < 0 ? -t.z : t.z; snprintf(b, sizeof b, "%s, %d %s %lld %02d:%02d:%02d %c%02d%02d", WD[wday(days(t.y, t.mo, t.d))], t.d, MO[t.mo - 1], t.y, t.h, t.mi, t.s, t.z < 0 ? '-' : '+', a / 60, a % 60); return b; }

static void run(Source& s, Ctx& c) {
	dt t = genDate(s); c.mix(S(t)); NOTE(c, S(t)); c.nontrivial(true);
	switch (s.draw(6)) {
	case 0: {
		c.label("calendar"); ll z = days(t.y, t.mo, t.d); int y = (int) t.y;
		CHECK_EQ(DU::isLeapYear(y), leap(y), "leap year " + S(t)); CHECK_EQ(DU::getDaysInMonth(y, t.mo), mdays(y, t.mo), "days in month " + S(t));
		CHECK_EQ(DU::getDayOfWeek(y, t.mo, t.d), wday(z), "day of week " + S(t)); CHECK_EQ(V(t).getWeekDay(), wday(z), "day of week " + S(t));
		CHECK_EQ(DU::getWeekOfYear(y, t.mo, t.d, true), isoWeek(y, t.mo, t.d), "ISO week " + S(t));
		int w = isoWeek(y, t.mo, t.d); if (w == 1 && t.mo == 12) w = 53; CHECK_EQ(DU::getWeekOfYear(y, t.mo, t.d), w, "week " + S(t));
		int bad = (int) s.pickInt({ 0, 13, -1, 100 }); bool thrown = false; try { DU::getDaysInMonth(y, bad); } catch (std::out_of_range&) { thrown = true; } CHECK(thrown);
		int bd = (int) s.pickInt({ 0, -1, 32, (ll) mdays(y, t.mo) + 1 }); thrown = false; try { DU::getDayOfWeek(y, t.mo, bd); } catch (std::out_of_range&) { thrown = true; } CHECK(thrown);
		break; }
	case 1: {
		c.label("round trip"); vmime::datetime v = V(t); std::string g = v.generate(); CHECK_EQ(g, text(t), "generated");
		vmime::datetime r(g); CHECK_EQ(S(F(r)), S(t), "parsed from " + g); CHECK(r == v); CHECK(!(r != v));
		auto f = vmime::headerFieldFactory::getInstance()->create("Date"); f->setValue(v); vmime::generationContext gc; gc.setMaxLineLength((size_t) s.pickInt({ 78, 998, 30 })); strOut o; f->generate(gc, o);
		vmime::header h; h.parse(o.s + "\r\n\r\n"); auto p = h.Date()->getValue<vmime::datetime>(); CHECK(!!p); CHECK_EQ(S(F(*p)), S(t), "parsed from field " + pbt::show(o.s));
		// setters
		vmime::datetime q; q.setDate((int) t.y, t.mo, t.d); q.setTime(t.h, t.mi, t.s, t.z); CHECK_EQ(S(F(q)), S(t), "set at once");
		vmime::datetime u; u.setYear((int) t.y); u.setMonth(t.mo); u.setDay(t.d); u.setHour(t.h); u.setMinute(t.mi); u.setSecond(t.s); u.setZone(t.z); CHECK_EQ(S(F(u)), S(t), "set one by one");
		int Y, M, D, H, I, C, Z; q.getDate(Y, M, D); q.getTime(H, I, C, Z); CHECK_EQ(S(dt{ Y, M, D, H, I, C, Z }), S(t), "got at once"); q.getTime(H, I, C); CHECK_EQ(H * 3600 + I * 60 + C, t.h * 3600 + t.mi * 60 + t.s, "time");
		vmime::datetime k; k.copyFrom(v); CHECK_EQ(S(F(k)), S(t), "copied"); k = g; CHECK_EQ(S(F(k)), S(t), "assigned from text");
		break; }
	case 2: {
		c.label("comparison"); dt o; ll d;
		switch (s.draw(3)) { case 0: d = 0; break; case 1: d = s.range(-3, 3); break; case 2: d = s.pickInt({ 60, -60, 3600, -3600, 86400, -86400, 31 * 86400, -365 * 86400 }); break; default: d = s.range(-100000000, 100000000); }
		o = at(inst(t) + d, genZone(s)); NOTE(c, "other " << S(o)); c.mix(S(o)); if (d == 0) c.label("same instant"); if (t.z != o.z) c.label("zones differ");
		vmime::datetime a = V(t), b = V(o); ll x = inst(t), y = inst(o); std::string w = S(t) + " and " + S(o);
		CHECK_EQ(a == b, x == y, "== " + w); CHECK_EQ(a != b, x != y, "!= " + w); CHECK_EQ(a < b, x < y, "< " + w); CHECK_EQ(a <= b, x <= y, "<= " + w); CHECK_EQ(a > b, x > y, "> " + w); CHECK_EQ(a >= b, x >= y, ">= " + w);
		break; }
	case 3: {
		c.label("zone conversion"); vmime::datetime a = V(t); int z = genZone(s); c.mix((uint64_t) z);
		CHECK_EQ(S(F(DU::toUniversalTime(a))), S(at(inst(t), 0)), "universal time of " + S(t));
		CHECK_EQ(S(F(DU::toLocalTime(a, z))), S(at(inst(t), z)), "local time of " + S(t)); CHECK_EQ(S(F(a)), S(t), "unchanged");
		break; }
	case 4: {
		c.label("Unix time"); ll u = inst(t); int z = s.coin() ? 0 : genZone(s); vmime::datetime a((time_t) u, z);
		CHECK_EQ(S(F(a)), S(at(u, z)), "time_t " + std::to_string(u) + " zone " + std::to_string(z));
		break; }
	case 5: {
		c.label("foreign syntax"); dt w = t; if (w.y < 1900) w.y += 400; w.d = std::min(w.d, mdays(w.y, w.mo)); std::string r; char b[64];
		auto sp = [&] { return s.pick({ " ", " ", " ", "  ", "\r\n ", "\t" }); };
		if (s.oneIn(6)) r += sp();
		if (!s.oneIn(3)) { std::string wd = WD[wday(days(w.y, w.mo, w.d))]; if (s.oneIn(8)) wd = lower(wd); r += wd + "," + sp(); } else c.label("no week day");
		snprintf(b, sizeof b, s.coin() ? "%d" : "%02d", w.d); r += b + sp(); std::string mo = MO[w.mo - 1]; if (s.oneIn(4)) mo = lower(mo); else if (s.oneIn(6)) for (auto& ch : mo) ch = (char) toupper(ch); r += mo + sp();
		if (w.y >= 1970 && w.y <= 2069 && s.coin()) { snprintf(b, sizeof b, "%02d", (int) (w.y % 100)); c.label("two-digit year"); } else if (w.y <= 2899 && s.oneIn(8)) { if (w.y - 1900 < 100) w.y += 100; w.d = std::min(w.d, mdays(w.y, w.mo)); w.y = w.y; snprintf(b, sizeof b, "%d", (int) (w.y - 1900)); c.label("three-digit year"); } else snprintf(b, sizeof b, "%d", (int) w.y);
		if (r.find(',') != std::string::npos || true) { }
		r += b + sp();
		std::string col = s.oneIn(8) ? " : " : ":"; snprintf(b, sizeof b, "%02d", w.h); r += b + col; snprintf(b, sizeof b, "%02d", w.mi); r += b; if (s.oneIn(4)) { w.s = 0; c.label("no seconds"); } else { snprintf(b, sizeof b, "%02d", w.s); r += col + b; }
		r += sp();
		if (s.coin()) { int a; if (w.z > 840 || w.z < -840) w.z %= 840; a = w.z < 0 ? -w.z : w.z; snprintf(b, sizeof b, "%c%02d%02d", w.z < 0 ? '-' : '+', a / 60, a % 60); r += b; }
		else {
			c.label("named zone"); struct nz { const char* n; int z; };
			static const nz N[] = { { "GMT", 0 }, { "UT", 0 }, { "UTC", 0 }, { "EST", -300 }, { "EDT", -240 }, { "CST", -360 }, { "CDT", -300 }, { "MST", -420 }, { "MDT", -360 }, { "PST", -480 }, { "PDT", -420 }, { "Z", 0 } };
			std::string n; if (s.oneIn(3)) { const char* L = "ABCDEFGHIKLMNOPQRSTUVWXY"; int k = (int) s.draw(23); n = L[k]; w.z = k < 12 ? -60 * (k + 1) : 60 * (k - 11); c.label("military zone"); } else { const nz& q = N[s.draw(11)]; n = q.n; w.z = q.z; }
			if (s.oneIn(4)) n = lower(n);
			r += n;
		}
		if (s.oneIn(3)) { r += sp() + s.pick({ "(CET)", "(Pacific Standard Time)", "()", "(a (b) c)", " " }); c.label("comment"); }
		// the rest of the case is decided by w
		NOTE(c, "text " << pbt::show(r)); c.mix(r);
		CHECK_EQ(S(F(vmime::datetime(r))), S(w), "parsed from " + pbt::show(r));
		break; }
	default: {
		c.label("current time"); ll u = inst(t); if (u < 0) u = -u; u %= 4102444800ll;
		std::string tz = s.pick({ "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "AEST-10AEDT,M10.1.0,M4.1.0/3", "NST3:30NDT,M3.2.0,M11.1.0", "<+14>-14", "<-12>12", "LHST-10:30LHDT-11,M10.1.0,M4.1.0" });
		if (s.coin()) {  // close to a change of offset
			setenv("TZ", tz.c_str(), 1); tzset(); ll lo = u; time_t a = (time_t) lo; struct tm x, y; localtime_r(&a, &x); ll hi = lo; bool found = false;
			for (int i = 0 ; i < 400 ; ++i) { hi = lo + 86400; time_t b = (time_t) hi; localtime_r(&b, &y); if (x.tm_gmtoff != y.tm_gmtoff) { found = true; break; } lo = hi; }
			if (found) { c.label("close to a change of offset"); u = lo + s.range(0, 86400 * 2) - 43200; }
		}
		setenv("TZ", tz.c_str(), 1); tzset(); time_t q = (time_t) u; struct tm x; localtime_r(&q, &x); c.mix(tz); c.mix((uint64_t) u);
		struct ph : vmime::platforms::posix::posixHandler { } H;
		fakeNow = q; fakeClock = true; vmime::datetime v = H.getCurrentLocalTime(); unsigned long ut = H.getUnixTime(); fakeClock = false;
		NOTE(c, tz << " " << u); CHECK_EQ((ll) ut, u, "Unix time"); CHECK_EQ(S(F(v)), S(at(u, (int) (x.tm_gmtoff / 60))), "current local time in " + tz + " at " + std::to_string(u));
		setenv("TZ", "UTC0", 1); tzset(); break; }
	}
}
Property makeProperty() {
	Property p; p.id = "C13"; p.run = run; p.init = installPlatform; p.quick = 1600000; p.thorough = 20000000; p.mutatePct = 5;
	p.rule = "dates of the years 1583 to 9999 (month ends, leap days and year ends over-represented) with zone offsets of -99:59 to +99:59: calendar helpers, generated text and its parse, comparison with a date a chosen time apart in another zone, conversions between zones, from Unix time, the current time in 9 time zones (close to daylight saving changes), and foreign date syntax, all against an independent calendar; non-trivial: every case";
	return p;
}
