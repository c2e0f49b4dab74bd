// C13: tokenising splits exactly at delimiters and gives the text back unchanged.
#include "pbt.h"
extern "C" {
#include "sc_str.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"texts of 0..60 (sometimes thousands of) characters over small alphabets or any bytes, with delimiter sets of 0..4 (sometimes hundreds of) characters, fixed or "
	"changing from call to call, tokenised completely or stopped after any number of tokens, several rounds on the same string; "
	"non-trivial: at least 3 tokens, one of them empty or two delimiters used"};

// up to 4 characters of the alphabet, sometimes many of any kind
static std::string gen_delim(Case &c, const char *alpha)
{
	if (!c.chance(1, 20)) return c.text(c.draw(5), alpha);
	std::string d = c.bytes(c.size(c.chance(1, 10) ? 600 : 40));
	for (auto &ch : d)
		if (!ch) ch = '~';
	return d + c.text(c.draw(3), alpha);
}

void run_case(Case &c)
{
	pbt_alloc_reset();
	static const char *alphabets[] = {"a-", "ab-;", "ab ,;\t", "a\xff\x80-"};
	const char *alpha = alphabets[c.draw(4)];
	std::string text = c.chance(1, 6) ? c.bytes(c.size(60)) : c.text(c.size(60), alpha);
	if (c.chance(1, 40)) {
		std::string u = text;
		size_t to = c.chance(1, 100) ? 66000 + c.draw(5000) : 3000;
		while (text.size() < to && !u.empty()) text += u;
	}
	for (auto &ch : text)
		if (!ch) ch = '-';
	char *s;
	{
		Alloc a;
		s = sc_str_create(text.c_str());
	}
	size_t rounds = 1 + c.draw(3);
	bool interesting = false;
	for (size_t r = 0; r < rounds; r++) {
		char *save = nullptr;
		std::string delim = gen_delim(c, alpha);
		bool vary = c.chance(1, 5);
		size_t stop = c.chance(1, 4) ? c.draw(8) : SIZE_MAX;
		c.trace("tokenise %s by %s%s, stop after %zd", quote(text).c_str(), quote(delim).c_str(), vary ? " (varying)" : "", (ssize_t) stop);
		size_t pos = 0, n = 0;
		bool done = false, empty = false;
		std::string rebuilt, used;
		while (n < stop) {
			if (vary && n) delim = gen_delim(c, alpha);
			const char *t = sc_str_token_begin(s, &save, delim.c_str());
			if (done) {
				REQUIRE(c, t == nullptr, "token %zu (%s) after the last one", n, quote(t ? t : "").c_str());
				break;
			}
			size_t e = pos;
			while (e < text.size() && delim.find(text[e]) == std::string::npos) e++;
			std::string want = text.substr(pos, e - pos);
			REQUIRE(c, t != nullptr, "no token %zu, expected %s", n, quote(want).c_str());
			REQUIRE(c, want == t, "token %zu is %s, expected %s", n, quote(t).c_str(), quote(want).c_str());
			REQUIRE(c, t == s + pos, "token %zu is not in place", n);
			REQUIRE(c, sc_str_len(s) == (int64_t) text.size(), "the length changed while tokenising");
			rebuilt += t;
			if (want.empty()) empty = true;
			n++;
			if (e == text.size()) done = true;
			else {
				rebuilt += text[e];
				if (used.find(text[e]) == std::string::npos) used += text[e];
			}
			pos = e + 1;
		}
		if (n < stop) REQUIRE(c, rebuilt == text, "pieces and delimiters give %s", quote(rebuilt).c_str());
		if (done && n < stop && c.flip()) REQUIRE(c, sc_str_token_begin(s, &save, delim.c_str()) == nullptr, "a token after the end");
		// after the end the text is already whole; token_end is needed when stopped early
		if (n < stop && c.flip()) {
			REQUIRE(c, memcmp(s, text.c_str(), text.size() + 1) == 0, "after the last token the text is %s, expected %s",
				quote(std::string(s, text.size())).c_str(), quote(text).c_str());
		}
		sc_str_token_end(s, &save);
		if (c.chance(1, 4)) sc_str_token_end(s, &save);
		REQUIRE(c, memcmp(s, text.c_str(), text.size() + 1) == 0, "afterwards the text is %s, expected %s",
			quote(std::string(s, text.size() + 1)).c_str(), quote(text).c_str());
		REQUIRE(c, sc_str_len(s) == (int64_t) text.size(), "afterwards the length is %lld", (long long) sc_str_len(s));
		if (n >= 3 && (empty || used.size() >= 2)) interesting = true;
		if (stop != SIZE_MAX && !done) c.label("stopped early");
	}
	char *save = nullptr;
	REQUIRE(c, sc_str_token_begin(nullptr, &save, "-") == nullptr, "tokenising NULL gives a token");
	sc_str_token_end(nullptr, &save);
	{
		Alloc a;
		sc_str_destroy(&s);
	}
	REQUIRE(c, pbt_alloc_live == 0, "%ld allocations left", pbt_alloc_live);
	if (interesting) c.nontrivial();
}
