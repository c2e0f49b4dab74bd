// C16: URI splitting against the pieces it was built from; arbitrary bytes against "pieces in order".
#include "pbt.h"
#include <errno.h>
#include <stdlib.h>
extern "C" {
#include "sc_uri.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"well-formed mode: a URI assembled from generated scheme, optional authority (user info, host name / IPv4 / bracketed IPv6, port), "
	"path, query and fragment whose texts use every character RFC 3986 allows there ('@', ':', '?', '/' included) is parsed and each "
	"component compared; malformed mode: one mutation the documentation refuses (no ':', open bracket, bad port); byte mode: random, "
	"delimiter-heavy strings, refused or pieces in order. Allocation failure is injected in some cases. Non-trivial: an authority or at "
	"least two optional components present, or an accepted arbitrary string of 3+ bytes."};

static std::string from(Case &c, const char *set, size_t lo, size_t max)
{
	size_t n = lo + c.size(max - lo);
	return c.text(n, set);
}

#define UNRES "abcxyzABZ0189-._~"
#define SUB "!$&'()*+,;="

struct Uri {
	std::string scheme, userinfo, host, port, path, query, fragment;
	bool auth = false, has_user = false, has_port = false, has_query = false, has_frag = false;
	std::string str() const
	{
		std::string s = scheme + ":";
		if (auth) {
			s += "//";
			if (has_user) s += userinfo + "@";
			s += host;
			if (has_port) s += ":" + port;
		}
		s += path;
		if (has_query) s += "?" + query;
		if (has_frag) s += "#" + fragment;
		return s;
	}
};

static std::string pct(Case &c, std::string s)
{
	static const char *h = "0123456789ABCDEF";
	if (c.chance(1, 4)) {
		std::string t = {'%', h[c.draw(16)], h[c.draw(16)]};
		s.insert(c.draw(s.size() + 1), t);
	}
	return s;
}

static std::string mk_host(Case &c)
{
	switch (c.weighted({4, 2, 3, 1})) {
	case 0: return pct(c, from(c, UNRES SUB, 1, c.chance(1, 20) ? 300 : 12));
	case 1: {
		std::string s;
		for (int i = 0; i < 4; i++) s += (i ? "." : "") + std::to_string(c.draw(256));
		return s;
	}
	case 2: return "[" + from(c, "0123456789abcdefF:.", 1, 20) + "]";
	default: return "";
	}
}

static Uri mk_uri(Case &c)
{
	Uri u;
	u.scheme = c.text(1, "abcxyzABZ") + from(c, "abcxyz0189+-.", 0, 8);
	u.auth = c.chance(3, 4);
	if (u.auth) {
		u.has_user = c.flip();
		if (u.has_user) u.userinfo = pct(c, from(c, UNRES SUB ":", 0, 14));
		u.host = mk_host(c);
		u.has_port = c.flip();
		if (u.has_port) {
			uint64_t p = c.weighted({3, 1}) ? 65535 - c.draw(4) : c.draw(65536);
			u.port = std::string(c.chance(1, 6) ? c.draw(3) : 0, '0') + std::to_string(p);
		}
		if (c.flip()) u.path = "/" + pct(c, from(c, UNRES SUB ":@/", 0, 24));
	} else {
		u.path = pct(c, from(c, UNRES SUB ":@/", 0, 24));
		while (u.path.compare(0, 2, "//") == 0) u.path.erase(0, 1);
	}
	if (c.chance(1, 3000)) { // one piece longer than any 16-bit length
		static const char set[] = UNRES SUB;
		std::string *big[] = {&u.path, &u.userinfo, &u.scheme, &u.host};
		size_t which = u.auth ? c.draw(4) : 0;
		if (which == 1) u.has_user = true;
		if (which == 3) u.host.clear();
		if (which == 0 && u.auth && u.path.empty()) u.path = "/";
		size_t n = 65000 + c.draw(2000), k = c.draw(20);
		while (n--) *big[which] += which == 2 ? 'a' : set[(n * 7 + k) % (sizeof set - 1)];
	}
	if ((u.has_query = c.flip())) u.query = pct(c, from(c, UNRES SUB ":@/?", 0, c.chance(1, 30) ? 3000 : 24));
	if ((u.has_frag = c.flip())) u.fragment = pct(c, from(c, UNRES SUB ":@/?", 0, 24));
	return u;
}

struct Parsed {
	sc_uri *u;
	std::string str, scheme, userinfo, host, port, path, query, fragment;
};

// the input is handed over in memory of exactly its size
static sc_uri *create(Case &c, const std::string &s, bool &oom)
{
	char *in = (char *) malloc(s.size() + 1);
	memcpy(in, s.c_str(), s.size() + 1);
	pbt_alloc_reset();
	bool inject = c.chance(1, 12);
	if (inject) pbt_alloc_fail_at = 0;
	sc_uri *u;
	errno = (int) c.draw(2) * ERANGE; // whatever an earlier call left there
	{
		Alloc a;
		u = sc_uri_create(in);
	}
	pbt_alloc_fail_at = -1;
	oom = pbt_alloc_failed != 0;
	REQUIRE(c, memcmp(in, s.c_str(), s.size() + 1) == 0, "sc_uri_create() modified its input %s", quote(s).c_str());
	memset(in, 0x5a, s.size() + 1);
	free(in); // the result must not depend on the caller's text
	REQUIRE(c, !(oom && u), "a URI was returned although its memory was refused");
	if (!u) REQUIRE(c, pbt_alloc_live == 0, "refusing %s leaves %ld allocations behind", quote(s).c_str(), pbt_alloc_live);
	return u;
}

static void destroy(Case &c, sc_uri *u)
{
	{
		Alloc a;
		sc_uri_destroy(u);
	}
	REQUIRE(c, pbt_alloc_live == 0, "sc_uri_destroy() leaves %ld allocations behind", pbt_alloc_live);
}

static void expect(Case &c, const std::string &in, const char *what, const char *got, const std::string &want)
{
	REQUIRE(c, got && want == got, "URI %s: %s is %s, expected %s", quote(in).c_str(), what, got ? quote(got).c_str() : "NULL", quote(want).c_str());
}

static void well_formed(Case &c)
{
	Uri u = mk_uri(c);
	std::string s = u.str();
	c.trace("uri %s", quote(s, 4000).c_str());
	bool oom;
	sc_uri *r = create(c, s, oom);
	if (oom) return;
	REQUIRE(c, r, "the well-formed URI %s is refused", quote(s).c_str());
	expect(c, s, "str", r->str, s);
	expect(c, s, "scheme", r->scheme, u.scheme);
	expect(c, s, "userinfo", r->userinfo, u.userinfo);
	expect(c, s, "host", r->host, u.host);
	expect(c, s, "port", r->port, u.port);
	expect(c, s, "path", r->path, u.path);
	expect(c, s, "query", r->query, u.query);
	expect(c, s, "fragment", r->fragment, u.fragment);
	destroy(c, r);
	if (u.auth || u.has_query + u.has_frag + !u.path.empty() > 1) c.nontrivial();
	if (u.auth) c.label("authority");
}

static void malformed(Case &c)
{
	Uri u = mk_uri(c);
	std::string s, why;
	int kind = (int) c.draw(5);
	if (kind > 0 && !u.auth && u.path.size() && u.path[0] != '/') u.path.insert(0, "/"); // gets an authority
	switch (kind) {
	case 0: // no scheme separator at all
		s = u.str();
		for (auto &ch : s) if (ch == ':') ch = '/';
		why = "has no scheme";
		break;
	case 1: // open bracket
		u.auth = true;
		u.host = "[" + from(c, "0123456789abcdef:", 0, 12);
		for (auto *p : {&u.path, &u.query, &u.fragment}) for (auto &ch : *p) if (ch == ']') ch = '.';
		s = u.str();
		why = "has an open bracketed host";
		break;
	case 2:
		u.auth = u.has_port = true;
		u.port = std::to_string(c.weighted({2, 1}) ? 65536 + c.ubits() : 65536 + c.draw(3));
		if (c.chance(1, 4)) u.port = c.text(1, "123456789") + c.text(5 + c.draw(40), "0123456789"); // beyond any machine word
		if (u.port.size() < 6 && atol(u.port.c_str()) < 65536) u.port = "65536"; // wrapped
		s = u.str();
		why = "has a port above 65535";
		break;
	case 3:
		u.auth = u.has_port = true;
		u.port = "";
		s = u.str();
		why = "has an empty port";
		break;
	default:
		u.auth = u.has_port = true;
		u.port = c.text(1, "abz-+ .,") + std::to_string(c.draw(1000));
		if (c.flip()) u.port = std::to_string(c.draw(6000)) + c.text(1 + c.draw(2), "abz-+ .,:");
		s = u.str();
		why = "has a port that is not a number";
		break;
	}
	c.trace("malformed %s", quote(s, 4000).c_str());
	bool oom;
	sc_uri *r = create(c, s, oom);
	REQUIRE(c, !r, "%s is accepted although it %s", quote(s).c_str(), why.c_str());
	c.nontrivial();
	c.label("malformed");
}

static bool has(const std::string &s, const char *set) { return s.find_first_of(set) != std::string::npos; }

static void arbitrary(Case &c)
{
	std::string s;
	if (c.mode == Mode::Bytes || c.chance(1, 4)) {
		s = c.bytes(c.size(300));
	} else {
		static const std::vector<std::string> tok = {":", "/", "//", "@", "?", "#", "[", "]", "a", "http", "://", "80", "65535",
			"65536", "%41", "%s", "\xff", " ", ".", "[::1]", "99999999999999999999", "-", "+"};
		size_t n = c.size(24);
		if (c.flip()) s = "s:";
		if (c.flip()) s += "//";
		for (size_t i = 0; i < n; i++) s += c.pick(tok);
	}
	s = s.substr(0, s.find('\0'));
	c.trace("bytes %s", quote(s, 4000).c_str());
	bool oom;
	sc_uri *r = create(c, s, oom);
	if (oom) return;
	if (!r) {
		if (s.size() > 2) c.label("arbitrary refused");
		return;
	}
	REQUIRE(c, s.find(':') != std::string::npos, "%s has no scheme but is accepted", quote(s).c_str());
	REQUIRE(c, s == r->str, "the full text is %s, expected %s", quote(r->str).c_str(), quote(s).c_str());
	Uri p;
	p.scheme = r->scheme; p.userinfo = r->userinfo; p.host = r->host; p.port = r->port;
	p.path = r->path; p.query = r->query; p.fragment = r->fragment;
	// each piece must not contain what separates it from the next
	std::string sh = quote(s);
	REQUIRE(c, !has(p.scheme, ":"), "%s: the scheme contains ':'", sh.c_str());
	REQUIRE(c, !has(p.userinfo, "/?#"), "%s: the user information %s reaches beyond the authority", sh.c_str(), quote(p.userinfo).c_str());
	REQUIRE(c, !has(p.host, "/?#"), "%s: the host %s reaches beyond the authority", sh.c_str(), quote(p.host).c_str());
	if (p.host[0] != '[') REQUIRE(c, !has(p.host, ":"), "%s: the host contains ':'", sh.c_str());
	else REQUIRE(c, p.host.back() == ']' && p.host.size() > 1, "%s: malformed bracketed host %s is accepted", sh.c_str(), quote(p.host).c_str());
	REQUIRE(c, !has(p.path, "?#"), "%s: the path %s contains '?' or '#'", sh.c_str(), quote(p.path).c_str());
	REQUIRE(c, !has(p.query, "#"), "%s: the query %s contains '#'", sh.c_str(), quote(p.query).c_str());
	for (char ch : p.port) REQUIRE(c, ch >= '0' && ch <= '9', "%s: port %s is not a number", sh.c_str(), quote(p.port).c_str());
	REQUIRE(c, p.port.empty() || (p.port.size() < 300 && strtoul(p.port.c_str(), NULL, 10) <= 65535), "%s: port %s is too large", sh.c_str(), p.port.c_str());
	bool ok = false;
	for (unsigned m = 0; m < 32 && !ok; m++) {
		p.auth = m & 1; p.has_user = m & 2; p.has_port = m & 4; p.has_query = m & 8; p.has_frag = m & 16;
		if (p.has_port && p.port.empty()) continue;
		if (!p.auth && (p.has_user || p.has_port || !p.userinfo.empty() || !p.host.empty() || !p.port.empty())) continue;
		if (!p.has_user && !p.userinfo.empty()) continue;
		if (!p.has_port && !p.port.empty()) continue;
		if (!p.has_query && !p.query.empty()) continue;
		if (!p.has_frag && !p.fragment.empty()) continue;
		// '//' right after the scheme always opens an authority
		if (!p.auth && p.path.compare(0, 2, "//") == 0) continue;
		ok = p.str() == s;
	}
	REQUIRE(c, ok, "%s: the components are not its pieces in order: scheme %s userinfo %s host %s port %s path %s query %s fragment %s", sh.c_str(),
		quote(p.scheme).c_str(), quote(p.userinfo).c_str(), quote(p.host).c_str(), quote(p.port).c_str(), quote(p.path).c_str(),
		quote(p.query).c_str(), quote(p.fragment).c_str());
	destroy(c, r);
	if (s.size() > 2) { c.nontrivial(); c.label("arbitrary accepted"); }
}

void run_case(Case &c)
{
	if (c.mode == Mode::Bytes) { // coverage-guided: mostly raw bytes
		if (c.draw(4) == 0) well_formed(c);
		else arbitrary(c);
		return;
	}
	switch (c.weighted({5, 2, 4})) {
	case 0: well_formed(c); break;
	case 1: malformed(c); break;
	default: arbitrary(c); break;
	}
}
