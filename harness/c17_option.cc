// C17: option recognition against a reference classifier.
#include "pbt.h"
#include <stdlib.h>
extern "C" {
#include "sc_option.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"a table of 0..6 declared options (rarely 500 or 66000; letters with collisions, names absent, empty, prefixes of each other, containing '-' or '=') and "
	"a vector of 1..8 arguments derived from the table (exact, prefix, extended, with '=', value, extra dashes) or random bytes; every "
	"argument, in exactly sized memory, is classified and compared with a reference. Non-trivial: at least one option was recognised and one argument unknown."};

struct Opt {
	char letter;
	bool named;
	std::string name;
};

struct Want {
	char id;
	bool null;
	size_t off; // of the value in the argument
};

static Want classify(const std::vector<Opt> &t, const std::string &a)
{
	Want unknown = {'?', true, 0};
	if (a.empty() || a[0] != '-') return unknown;
	if (a.size() > 1 && a[1] == '-') {
		size_t eq = a.find('=', 2), end = eq == std::string::npos ? a.size() : eq;
		for (auto &o : t) {
			if (o.named && a.compare(2, end - 2, o.name) == 0) {
				return {o.letter, false, eq == std::string::npos ? a.size() : eq + 1};
			}
		}
		return unknown;
	}
	if (a.size() < 2) return unknown;
	for (auto &o : t) {
		if (o.letter != a[1]) continue;
		if (a.size() == 2) return {o.letter, false, 2};
		if (a[2] == '=') return {o.letter, false, 3};
		if (a[2] == ' ') return {o.letter, false, 2}; // the rest of the argument, white space included
	}
	return unknown;
}

void run_case(Case &c)
{
	std::vector<Opt> t;
	size_t n = c.chance(1, 2000) ? 100 + c.draw(400) : c.draw(7);
	if (c.chance(1, 100000)) t.assign(c.flip() ? 33000 : 66000, Opt{'\x01', true, "never given"});
	for (size_t i = 0; i < n; i++) {
		Opt o;
		o.letter = c.chance(1, 8) ? (char) (1 + c.draw(255)) : c.text(1, "abcdxyzABZ019?-=")[0];
		if (o.letter == '-') o.letter = 'd'; // "--" always starts a long option
		o.named = c.chance(3, 4);
		if (o.named) {
			o.name = t.size() && c.chance(1, 3) ? t[c.draw(t.size())].name : "";
			if (o.name.size() && c.flip()) o.name.resize(c.draw(o.name.size()));
			o.name += c.text(c.size(6), "abk-ey");
			if (c.chance(1, 40)) o.name += c.text(c.chance(1, 100) ? 66000 : c.size(300), "ab-");
		}
		t.push_back(o);
	}
	std::vector<std::string> args = {"prog"};
	size_t m = 1 + c.draw(8);
	for (size_t i = 0; i < m; i++) {
		std::string a, v = c.text(c.chance(1, 5000) ? 66000 : c.size(8), "abk=- /.\x80\xff%s");
		switch (c.weighted({5, 5, 2, 2})) {
		case 0: {
			std::string name = t.size() && c.chance(7, 8) ? t[t.size() < 1000 ? c.draw(t.size()) : t.size() - 1 - c.draw(8)].name : c.text(c.size(5), "abk-ey");
			switch (c.draw(6)) {
			case 0: name += c.text(1, "abk- "); break;
			case 1: if (name.size()) name.pop_back(); break;
			case 2: if (c.chance(1, 500)) name += std::string(c.flip() ? 256 : 65536, "abk-"[c.draw(4)]); break;
			default: break;
			}
			a = "--" + name;
			if (c.flip()) a += "=" + v;
			break;
		}
		case 1:
			a = "-";
			a += t.size() && c.chance(7, 8) ? t[t.size() < 1000 ? c.draw(t.size()) : t.size() - 1 - c.draw(8)].letter : (char) (1 + c.draw(255));
			switch (c.draw(4)) {
			case 0: break;
			case 1: a += "=" + v; break;
			case 2: a += v; break;
			default: a += "= " + v; break;
			}
			break;
		case 2: a = c.bytes(c.size(10)); break;
		default: a = c.text(c.size(6), "-=a k"); break;
		}
		a = a.substr(0, a.find('\0'));
		args.push_back(a);
	}
	// exactly sized copies; names may be shared between entries
	std::vector<char *> names, av;
	auto dup = [](const std::string &s) {
		char *p = (char *) malloc(s.size() + 1);
		memcpy(p, s.c_str(), s.size() + 1);
		return p;
	};
	sc_option_item *items = (sc_option_item *) malloc(sizeof(sc_option_item) * (t.size() ? t.size() : 1));
	std::string desc;
	for (size_t i = 0; i < t.size(); i++) {
		names.push_back(t[i].named ? dup(t[i].name) : NULL);
		sc_option_item it = {t[i].letter, names[i]};
		memcpy((void *) &items[i], &it, sizeof it);
		if (t.size() < 1000 || i + n >= t.size()) desc += std::string(" {") + quote(std::string(1, t[i].letter)) + "," + (t[i].named ? quote(t[i].name) : "NULL") + "}";
	}
	for (auto &a : args) av.push_back(dup(a));
	char **argv = (char **) malloc(sizeof(char *) * av.size());
	memcpy(argv, av.data(), sizeof(char *) * av.size());
	std::string before((char *) items, sizeof(sc_option_item) * t.size());
	sc_option opt = {items, (int) t.size(), argv};
	if (t.size() >= 1000) desc = " " + std::to_string(t.size() - n) + " options never given," + desc;
	c.trace("declared%s", desc.c_str());
	unsigned known = 0, unknown = 0;
	for (size_t k = 0; k < args.size(); k++) {
		size_t i = c.chance(1, 5) ? c.draw(args.size()) : k;
		char *value = (char *) 1;
		char id = sc_option_at(&opt, (int) i, &value);
		Want w = classify(t, args[i]);
		c.trace("argument %zu %s: %s value %s", i, quote(args[i]).c_str(), quote(std::string(1, id)).c_str(), value ? quote(value).c_str() : "NULL");
		REQUIRE(c, id == w.id, "%s with%s: classified as %s, expected %s", quote(args[i]).c_str(), desc.c_str(),
			quote(std::string(1, id)).c_str(), quote(std::string(1, w.id)).c_str());
		if (w.null) {
			REQUIRE(c, value == NULL, "%s: a value is reported for an unknown option", quote(args[i]).c_str());
			unknown++;
		} else {
			REQUIRE(c, value && args[i].substr(w.off) == value, "%s: the value is %s, expected %s", quote(args[i]).c_str(),
				value ? quote(value).c_str() : "NULL", quote(args[i].substr(w.off)).c_str());
			known++;
		}
	}
	REQUIRE(c, opt.options == items && opt.count == (int) t.size() && opt.argv == argv, "the option object was changed");
	REQUIRE(c, memcmp(items, before.data(), before.size()) == 0, "the declarations were changed");
	for (size_t i = 0; i < args.size(); i++) REQUIRE(c, argv[i] == av[i] && args[i] == av[i], "argument %zu was changed", i);
	for (size_t i = 0; i < t.size(); i++) if (names[i]) REQUIRE(c, t[i].name == names[i], "a declared name was changed");
	for (auto p : names) free(p);
	for (auto p : av) free(p);
	free(items);
	free(argv);
	if (known && unknown) c.nontrivial();
}
