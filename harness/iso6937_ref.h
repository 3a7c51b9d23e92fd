// ISO/IEC 6937 (ITU-T T.51) as the standard gives it, written independently of libsub's tables.
#ifndef VERIF_ISO6937_REF_H
#define VERIF_ISO6937_REF_H

#include "gen.h"

namespace h { namespace iso {

// single bytes a1..ff; 0 is not assigned (or a non-spacing accent)
static const uint16_t high[96] = {
	/* a0 */ 0, 0xa1, 0xa2, 0xa3, 0x24, 0xa5, 0, 0xa7, 0xa4, 0x2018, 0x201c, 0xab, 0x2190, 0x2191, 0x2192, 0x2193,
	/* b0 */ 0xb0, 0xb1, 0xb2, 0xb3, 0xd7, 0xb5, 0xb6, 0xb7, 0xf7, 0x2019, 0x201d, 0xbb, 0xbc, 0xbd, 0xbe, 0xbf,
	/* c0 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
	/* d0 */ 0x2015, 0xb9, 0xae, 0xa9, 0x2122, 0x266a, 0xac, 0xa6, 0, 0, 0, 0, 0x215b, 0x215c, 0x215d, 0x215e,
	/* e0 */ 0x2126, 0xc6, 0x110, 0xaa, 0x126, 0, 0x132, 0x13f, 0x141, 0xd8, 0x152, 0xba, 0xde, 0x166, 0x14a, 0x149,
	/* f0 */ 0x138, 0xe6, 0x111, 0xf0, 0x127, 0x131, 0x133, 0x140, 0x142, 0xf8, 0x153, 0xdf, 0xfe, 0x167, 0x14b, 0xad,
};

struct Accent { unsigned char code; uint16_t mark; char const* letters; char const* composed; };

// the letters each accent may precede, and the composed characters in UTF-8
static const Accent accents[] = {
	{ 0xc1, 0x300, "AEIOUaeiou", "ÀÈÌÒÙàèìòù" },
	{ 0xc2, 0x301, "ACEILNORSUYZacegilnorsuyz", "ÁĆÉÍĹŃÓŔŚÚÝŹáćéǵíĺńóŕśúýź" },
	{ 0xc3, 0x302, "ACEGHIJOSUWYaceghijosuwy", "ÂĈÊĜĤÎĴÔŜÛŴŶâĉêĝĥîĵôŝûŵŷ" },
	{ 0xc4, 0x303, "AINOUainou", "ÃĨÑÕŨãĩñõũ" },
	{ 0xc5, 0x304, "AEIOUaeiou", "ĀĒĪŌŪāēīōū" },
	{ 0xc6, 0x306, "AGUagu", "ĂĞŬăğŭ" },
	{ 0xc7, 0x307, "CEGIZcegz", "ĊĖĠİŻċėġż" },
	{ 0xc8, 0x308, "AEIOUYaeiouy", "ÄËÏÖÜŸäëïöüÿ" },
	{ 0xca, 0x30a, "AUau", "ÅŮåů" },
	{ 0xcb, 0x327, "CGKLNRSTcklnrst", "ÇĢĶĻŅŖŞŢçķļņŗşţ" },
	{ 0xcd, 0x30b, "OUou", "ŐŰőű" },
	{ 0xce, 0x328, "AEIUaeiu", "ĄĘĮŲąęįų" },
	{ 0xcf, 0x30c, "CDELNRSTZcdelnrstz", "ČĎĚĽŇŘŠŤŽčďěľňřšťž" },
};

inline vector<uint32_t> from_utf8(string const& s)
{
	vector<uint32_t> o;
	for (size_t i = 0; i < s.size(); ) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
		uint32_t v = n == 0 ? c : c & (0x3f >> n);
		for (int k = 1; k <= n && i + k < s.size(); ++k) { v = v << 6 | (s[i + k] & 0x3f); }
		o.push_back(v);
		i += n + 1;
	}
	return o;
}

inline string to_utf8(vector<uint32_t> const& v) { string o; for (auto c: v) { o += utf8(c); } return o; }

struct Tables
{
	std::map<std::pair<int, int>, uint32_t> pair;     // (accent byte, letter) -> character
	std::map<uint32_t, string> encode;                // character -> bytes
	std::map<uint32_t, int> mark;                     // combining mark -> accent byte
	vector<uint32_t> repertoire, composed;
	Tables() {
		for (int c = 0x20; c <= 0x7e; ++c) { encode[c] = string(1, char(c)); }
		for (int i = 0; i < 96; ++i) { if (high[i]) { encode.emplace(high[i], string(1, char(0xa0 + i))); } }
		for (auto const& a: accents) {
			auto v = from_utf8(a.composed);
			for (size_t i = 0; a.letters[i]; ++i) {
				pair[{ a.code, a.letters[i] }] = v[i];
				encode[v[i]] = string(1, char(a.code)) + a.letters[i];
				composed.push_back(v[i]);
			}
			mark[a.mark] = a.code;
		}
		for (auto const& e: encode) { repertoire.push_back(e.first); }
	}
};

inline Tables const& tables() { static Tables t; return t; }

// a single byte, or 0
inline uint32_t single(unsigned char c)
{
	if (c >= 0x20 && c <= 0x7e) { return c; }
	if (c == '\n') { return c; }
	return c >= 0xa0 ? high[c - 0xa0] : 0;
}

inline vector<uint32_t> decode(string const& s)
{
	vector<uint32_t> o;
	int accent = 0;
	for (unsigned char c: s) {
		if (c >= 0xc1 && c <= 0xcf) { accent = c; continue; }
		uint32_t v = 0;
		if (accent) {
			auto p = tables().pair.find({ accent, c });
			v = p != tables().pair.end() ? p->second : single(c);
			accent = 0;
		} else {
			v = single(c);
		}
		if (v) { o.push_back(v); }
	}
	return o;
}

// what encoding and decoding again may leave of a text: what has no equivalent is dropped or becomes
// a plain substitute
inline vector<uint32_t> representable(vector<uint32_t> const& v)
{
	vector<uint32_t> o;
	for (size_t i = 0; i < v.size(); ++i) {
		uint32_t c = v[i];
		auto m = tables().mark.find(c);
		if (m != tables().mark.end()) {
			// joins the letter before it, if the two make a character
			if (i > 0 && !o.empty() && o.back() == v[i - 1]) {
				auto p = tables().pair.find({ m->second, int(v[i - 1] < 128 ? v[i - 1] : 0) });
				if (p != tables().pair.end()) { o.back() = p->second; }
			}
			continue;
		}
		if (tables().encode.count(c) || c == '\n') { o.push_back(c); continue; }
		switch (c) {
		case 0x201e: o.push_back(0x201c); break;
		case 0x2013: case 0x2014: o.push_back(0x2015); break;
		case 0x2010: case 0x2011: case 0x2012: o.push_back('-'); break;
		case 0x2032: o.push_back('\''); break;
		}
	}
	return o;
}

inline bool all_representable(vector<uint32_t> const& v)
{
	for (auto c: v) { if (!tables().encode.count(c)) { return false; } }
	return true;
}

inline string show_points(vector<uint32_t> const& v) { string s; char b[16]; for (auto c: v) { snprintf(b, sizeof(b), "U+%04X ", c); s += b; } return s; }

// text from the repertoire
inline string gen_repertoire_text(Rng& r, size_t max, bool allow_accents = true)
{
	string s;
	size_t n = 1 + r.skewed(max - 1);
	for (size_t i = 0; i < n; ++i) {
		switch (r.below(6)) {
		case 0: s += utf8(r.pick(tables().repertoire)); break;
		case 1: s += allow_accents ? utf8(r.pick(tables().composed)) : string("q"); break;
		case 2: s += ' '; break;
		default: s += char('a' + r.below(26));
		}
	}
	return s;
}

} }

#endif
