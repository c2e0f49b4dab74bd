// C14: INI parsing reports exactly the items the text denotes (reference parser written from the documented grammar).
// With -DINI_ANY: C15, arbitrary bytes: total, bounded, repeatable, terminated strings.
#include "pbt.h"
#include <algorithm>
#include <fcntl.h>
#include <memory>
#include <unistd.h>
extern "C" {
#include "sc_ini.h"
}
using namespace pbt;

#ifdef INI_ANY
const HarnessInfo harness_info = {
	"arbitrary bytes (grammar fragments, random bytes, embedded zeros, lines around 1022..1025 and 3000 bytes, no final newline) parsed "
	"twice from a string and from a file, also with a callback that refuses; non-trivial: at least two items were reported or an error "
	"line was returned after an item"};
#else
const HarnessInfo harness_info = {
	"texts of 0..25 lines built from a grammar (sections, both separators, comments at line start / after a space / glued, indented "
	"continuation lines, blank lines, CRLF, byte-order mark, malformed lines, over-long lines, sections and keys around their limits) "
	"compared item by item with a reference parser, from a string and from a file, with callbacks that refuse the n-th item; "
	"non-trivial: at least two items, and a continuation, comment, over-long line or error occurred"};
#endif

struct Item {
	int line;
	std::string section, key, value;
	bool operator==(const Item &o) const { return line == o.line && section == o.section && key == o.key && value == o.value; }
};

struct Out {
	std::vector<Item> items;
	int rc = 0;
	int refuse_at = -1, refuse_rc = 0;
	Case *c = nullptr;
};

static int on_item(void *arg, int line, const char *section, const char *key, const char *value)
{
	Out *o = (Out *) arg;
	o->items.push_back({line, section, key, value}); // reads up to the terminator: ASan checks it
	if ((int) o->items.size() - 1 == o->refuse_at) return o->refuse_rc;
	return 0;
}

static bool space(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }
static std::string trim(const std::string &s)
{
	size_t b = 0, e = s.size();
	while (b < e && space(s[b])) b++;
	while (e > b && space(s[e - 1])) e--;
	return s.substr(b, e - b);
}

static const size_t MAXLINE = SC_INI_MAX_LINE_LEN - 1, MAXNAME = 255;
struct Seen {
	bool cont = false, comment = false, over = false, error = false, bom = false;
};

static Out ref_parse(const std::string &text, int refuse_at, Seen &seen)
{
	Out o;
	std::string section, key;
	int line = 0;
	size_t pos = 0;
	while (pos < text.size()) {
		size_t e = text.find('\n', pos);
		if (e == std::string::npos) e = text.size();
		std::string s = text.substr(pos, e - pos);
		pos = e + 1;
		line++;
		if (s.size() > MAXLINE) s.resize(MAXLINE), seen.over = true;
		size_t z = s.find('\0');
		if (z != std::string::npos) s.resize(z);
		if (line == 1 && s.compare(0, 3, "\xef\xbb\xbf") == 0) s.erase(0, 3), seen.bom = true;
		for (size_t i = 0; i < s.size(); i++)
			if ((s[i] == ';' || s[i] == '#') && (i == 0 || s[i - 1] == ' ')) {
				s.resize(i);
				seen.comment = true;
				break;
			}
		bool indented = !s.empty() && space(s[0]);
		s = trim(s);
		if (s.empty()) continue;
		if (indented && !key.empty()) {
			seen.cont = true;
			o.items.push_back({line, section, key, s});
		} else if (s[0] == '[') {
			size_t close = s.find(']');
			if (close == std::string::npos) {
				seen.error = true;
				o.rc = line;
				return o;
			}
			section = s.substr(1, close - 1);
			if (section.size() > MAXNAME) section.resize(MAXNAME), seen.over = true;
			key.clear();
			continue;
		} else {
			size_t sep = s.find_first_of("=:");
			if (sep == std::string::npos) {
				seen.error = true;
				o.rc = line;
				return o;
			}
			key = trim(s.substr(0, sep));
			o.items.push_back({line, section, key, trim(s.substr(sep + 1))});
			if (key.size() > MAXNAME) key.resize(MAXNAME), seen.over = true;
		}
		if ((int) o.items.size() - 1 == refuse_at) {
			o.rc = line;
			return o;
		}
	}
	return o;
}

static std::string gen_text(Case &c, bool any)
{
	std::string t;
	if (any && c.chance(1, 3)) return c.bytes(c.size(200));
	if (c.chance(1, 8)) t += c.chance(3, 4) ? "\xef\xbb\xbf" : "\xef\xbb";
	size_t lines = c.size(25);
	if (c.chance(1, 800)) { // a long way down
		size_t n = c.draw(c.chance(1, 3) ? 70000 : 700);
		const char *l = c.flip() ? "\n" : "; comment\r\n";
		for (size_t i = 0; i < n; i++) t += l;
	}
	auto word = [&](size_t max) {
		if (c.chance(1, 25)) {
			static const size_t lens[] = {253, 254, 255, 256, 257, 300, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 2047, 3000};
			std::string w = c.text(3, "abc");
			size_t n = lens[c.draw(15)];
			while (w.size() < n) w += (char) ('a' + w.size() % 26);
			return w.substr(0, n);
		}
		return c.text(1 + c.size(max), c.chance(1, 12) ? "ab\xc3\xa4\xa0\x85\xff\x01\x7f\xef\xbb\xbf" : "abcXY.1_");
	};
	auto ws = [&] { return c.chance(1, 2) ? std::string() : c.text(1 + c.size(3), c.chance(1, 4) ? " \t\r\v\f" : "  \t"); };
	auto comment = [&] {
		switch (c.weighted({8, 2, 1, 1})) {
		case 0: return std::string();
		case 1: return std::string(" ") + (c.flip() ? ";" : "#") + c.text(c.size(8), "abc=[]:; #");
		case 2: return std::string(c.flip() ? ";" : "#") + c.text(c.size(4), "abc; ");
		default: return std::string("\t;") + c.text(c.size(4), "abc ");
		}
	};
	for (size_t i = 0; i < lines; i++) {
		std::string l;
		switch (c.weighted({10, 3, 5, 3, 2, 1, 1})) {
		case 0: {
			std::string sep(1, "=:"[c.draw(2)]);
			l = (c.chance(1, 6) ? ws() : "") + (c.chance(1, 20) ? "" : word(8)) + ws() + sep + ws() + (c.chance(1, 10) ? "" : word(12));
			if (c.chance(1, 8)) l += c.text(1 + c.size(6), " =:;#[]a");
			break;
		}
		case 1: l = (c.chance(1, 6) ? ws() : "") + "[" + (c.chance(1, 12) ? "" : word(8)) + (c.chance(1, 8) ? ws() + word(3) : "") + (c.chance(1, 25) ? "" : "]"); break;
		case 2: l = c.text(1 + c.size(3), c.chance(1, 4) ? "\t \r" : " ") + word(10) + (c.chance(1, 5) ? " = " + word(3) : ""); break;
		case 3: l = ws(); break;
		case 4: l = ws() + (c.flip() ? ";" : "#") + c.text(c.size(10), "abc=[]:; #"); break;
		case 5: l = c.chance(1, 3) ? word(10) : c.text(c.size(10), "a=[]:;# \t"); break;
		default: { // near the line limit, with something interesting at the cut
			l = word(4) + "=";
			size_t n = 1010 + c.draw(20);
			while (l.size() < n) l += 'v';
			l += c.text(c.size(10), "a ;#=]");
			if (c.chance(1, 4)) l += std::string(c.draw(2200), 'w');
			break;
		}
		}
		if (c.chance(1, 25)) l = "\xef\xbb\xbf" + l; // no byte-order mark unless on the first line
		l += comment();
		if (c.chance(1, 12)) l += ws();
		if (any && c.chance(1, 10) && !l.empty()) l[c.draw(l.size())] = (char) c.draw(256);
		if (c.chance(1, 8)) l += "\r";
		t += l;
		if (i + 1 < lines || c.chance(2, 3)) t += "\n";
	}
	return t;
}

static const char *file_path()
{
	static std::string p = scratch() + "/t.ini";
	return p.c_str();
}

static int lowest_fd()
{
	int fd = dup(0);
	if (fd >= 0) close(fd);
	return fd;
}

static Out parse_file(Case &c, const std::string &text, int refuse_at, int refuse_rc)
{
	int fd = open(file_path(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t) text.size()) c.error("cannot write the scratch file");
	close(fd);
	Out o;
	o.refuse_at = refuse_at;
	o.refuse_rc = refuse_rc;
	int before = lowest_fd();
	o.rc = sc_ini_parse_file(&o, on_item, file_path());
	int after = lowest_fd();
	REQUIRE(c, before == after, "parsing a file left it open: the lowest free descriptor was %d, now %d", before, after);
	return o;
}

static Out parse_str(Case &c, const std::string &text, int refuse_at, int refuse_rc)
{
	std::unique_ptr<char[]> m(new char[text.size() + 1]);
	memcpy(m.get(), text.c_str(), text.size() + 1);
	Out o;
	o.refuse_at = refuse_at;
	o.refuse_rc = refuse_rc;
	o.rc = sc_ini_parse_string(&o, on_item, m.get());
	REQUIRE(c, memcmp(m.get(), text.c_str(), text.size() + 1) == 0, "parsing modified its input");
	return o;
}

static std::string show(const Item &i)
{
	return std::to_string(i.line) + " [" + quote(i.section, 40) + "] " + quote(i.key, 40) + " = " + quote(i.value, 40);
}

static void same(Case &c, const char *what, const Out &got, const Out &want)
{
	for (size_t i = 0; i < std::min(got.items.size(), want.items.size()); i++)
		REQUIRE(c, got.items[i] == want.items[i], "%s: item %zu is %s, expected %s", what, i, show(got.items[i]).c_str(), show(want.items[i]).c_str());
	REQUIRE(c, got.items.size() == want.items.size(), "%s: %zu items, expected %zu (%s)", what, got.items.size(), want.items.size(),
		got.items.size() > want.items.size() ? show(got.items[want.items.size()]).c_str() : show(want.items[got.items.size()]).c_str());
	REQUIRE(c, got.rc == want.rc, "%s: returned %d, expected %d", what, got.rc, want.rc);
}

void run_case(Case &c)
{
#ifdef INI_ANY
	bool any = true;
#else
	bool any = false;
#endif
	std::string text = gen_text(c, any);
	int refuse = c.chance(1, 4) ? (int) c.draw(8) : -1;
	int rrc = c.flip() ? -1 : 1 + (int) c.draw(1000);
	c.trace("%s", quote(text, 1500).c_str());
	if (refuse >= 0) c.trace("callback refuses item %d with %d", refuse, rrc);
#ifndef INI_ANY
	Seen seen;
	Out want = ref_parse(text, refuse, seen);
	Out s = parse_str(c, text, refuse, rrc);
	same(c, "string", s, want);
	Out f = parse_file(c, text, refuse, rrc);
	same(c, "file", f, want);
	if (seen.cont) c.label("continuation");
	if (seen.over) c.label("over-long");
	if (seen.error) c.label("malformed");
	if (seen.bom) c.label("byte-order mark");
	if (want.items.size() >= 2 && (seen.cont || seen.comment || seen.over || seen.error)) c.nontrivial();
#else
	auto valid = [&](const char *what, const Out &o, int nlines) {
		int prev = 0;
		for (auto &i : o.items) {
			REQUIRE(c, i.line > prev && i.line <= nlines, "%s: item on line %d after line %d, the input has %d lines", what, i.line, prev, nlines);
			REQUIRE(c, i.section.size() <= MAXNAME, "%s: section of %zu characters", what, i.section.size());
			REQUIRE(c, i.key.size() <= MAXLINE && i.value.size() <= MAXLINE, "%s: key/value longer than a line", what);
			prev = i.line;
		}
		REQUIRE(c, o.rc >= 0 && o.rc <= nlines && (o.rc == 0 || o.rc >= prev), "%s: returned %d after line %d, the input has %d lines", what, o.rc, prev, nlines);
	};
	auto count = [](const std::string &t) {
		int n = (int) std::count(t.begin(), t.end(), '\n');
		return n + (!t.empty() && t.back() != '\n');
	};
	std::string cut = text.substr(0, text.find('\0'));
	Out a = parse_str(c, cut, refuse, rrc), b = parse_str(c, cut, refuse, rrc);
	valid("string", a, count(cut));
	same(c, "string parsed again", b, a);
	if (refuse >= 0 && (int) a.items.size() > refuse) REQUIRE(c, (int) a.items.size() == refuse + 1 && a.rc == a.items.back().line, "parsing went on after a refused item");
	Out f = parse_file(c, text, refuse, rrc), g = parse_file(c, text, refuse, rrc);
	valid("file", f, count(text));
	same(c, "file parsed again", g, f);
	if (cut.size() == text.size()) same(c, "file instead of string", f, a);
	else c.label("embedded zero");
	if (a.items.size() >= 2 || (a.rc && a.items.size())) c.nontrivial();
	if (c.chance(1, 50)) {
		Out o;
		REQUIRE(c, sc_ini_parse_file(&o, on_item, (scratch() + "/missing.ini").c_str()) == -1 && o.items.empty(), "a missing file is not reported as -1");
		int before = lowest_fd();
		REQUIRE(c, sc_ini_parse_file(&o, on_item, scratch().c_str()) == -1 && o.items.empty(), "a directory is not reported as -1");
		REQUIRE(c, before == lowest_fd(), "a failed parse left the file open");
		REQUIRE(c, sc_ini_parse_string(&o, on_item, "") == 0 && o.items.empty(), "an empty text gives items or an error");
	}
	if (a.rc) c.label("error line");
#endif
}
