// Documents made of anything.
#ifndef VERIF_SOUP_H
#define VERIF_SOUP_H

#include "scenarios.h"

namespace h {

// how many in a thousand of a document's parts are out of the ordinary
inline int& wildness() { static int w = 100; return w; }
inline bool wild(Rng& r) { return r.below(1000) < static_cast<uint64_t>(wildness()); }

inline string soup_number(Rng& r)
{
	static vector<string> const odd = { "0", "-1", "-0", "+1", "00", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999999",
		"1e9", "1e400", "-1e400", "nan", "inf", "-inf", "0x10", "1.5", ".5", "5.", "1,5", "", " ", "715827882", "35791394", "596523", "1000000", "21474836", "214748364", "255", "256", "65535", "65536", "x", "1x", "\xd9\xa3" };
	return wild(r) ? r.pick(odd) : std::to_string(r.skewed(r.coin() ? 60 : 100000));
}

// text, now and then with characters that need special treatment when they are written
inline string soup_text(Rng& r)
{
	static uint32_t const odd[] = { 0x300, 0x301, 0x302, 0x303, 0x304, 0x306, 0x307, 0x308, 0x30a, 0x30b, 0x30c, 0x327, 0x328, 0x332, 0x338, 0x201e, 0x2010, 0x2013, 0x2014, 0x2032, 0xa0, 0xad, 0x7f, 0x80, 0x8a, 0x8f, 0x9f,
		0xc1, 0xff, 0x100, 0x17f, 0x149, 0x138, 0x20ac, 0x2028, 0x2029, 0x202b, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff };
	string s = r.chance(1, 8) ? "" : gen_text(r, TextOpts());
	if (r.chance(1, 6)) { for (int n = 1 + r.skewed(4); n; --n) { string const c = utf8(r.pick(odd)); if (r.coin()) { s.insert(0, c); } else { s += c; } } }
	return s;
}

// fragments of every format, with numbers of all kinds
inline string soup_fragment(Rng& r, int format)
{
	auto n = [&]() { return soup_number(r); };
	auto time = [&](string const& sep) { return n() + ":" + n() + ":" + n() + sep + n(); };
	string const eol = r.chance(1, 6) ? "\r\n" : r.chance(1, 12) ? "\r" : "\n";
	switch (format) {
	case SRT:
		switch (r.below(16)) {
		case 0: case 1: case 11: return (wild(r) ? "" : eol + eol) + n() + eol + time(",") + " --> " + time(",") + eol;
		case 2: return "<font color=\"#" + string(wild(r) ? r.below(12) : 6, 'f') + "\">";
		case 3: return "<font color=" + r.pick(vector<string>{ "\"", "'", "" }) + "rgba(" + n() + "," + n() + "," + n() + "," + n() + ")\">";
		case 4: return "</font>";
		case 5: return r.pick(vector<string>{ "<i>", "</i>", "<b>", "</b>", "<u>", "</u>", "{i}", "{/i}", "{b}", "{/b}", "{u}", "{/u}", "<I>", "<", "</", "{", wild(r) ? "<font" : "<b>", wild(r) ? "<font " : "<i>", "</fon" });
		case 6: return "{\\an" + n() + "}";
		case 7: return "{\\pos(" + n() + "," + n() + ")}";
		case 8: return "{\\" + r.pick(vector<string>{ "i1", "fs" + n(), "c&H" + n() + "&", "c&H&", "r", "pos", "pos(", "pos()", "pos(1)", "pos(,)", "an", "k" + n(), "fn", "c", "1c&H", "\\", "" }) + (r.chance(1, 4) ? "" : "}");
		case 9: return "\xe2\x80\xa8";
		case 10: return r.pick(vector<string>{ "\xe2\x80\xab", "\xef\xbb\xbf", string(1, '\0'), "\xe2\x80", "\xff", "\xed\xa0\x80" });
		case 12: return wild(r) ? eol + eol : eol;
		default: return soup_text(r);
		}
	case VTT:
		switch (r.below(10)) {
		case 0: case 1: return time(".") + " --> " + time(".") + eol;
		case 2: return "NOTE " + soup_text(r) + eol;
		case 3: return "WEBVTT" + eol;
		case 4: return wild(r) ? "-->" + eol : "-> " + eol;
		case 5: return "\xe2\x80\xa8";
		case 6: case 7: return eol + eol;
		default: return soup_text(r);
		}
	case SSA: {
		static vector<string> const style_columns = { "Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "TertiaryColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX", "Spacing", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "AlphaLevel", "Encoding", "" };
		static vector<string> const event_columns = { "Layer", "Marked", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text", "" };
		auto columns = [&](vector<string> const& v) { string s; for (size_t i = r.below(v.size() + 4); i; --i) { s += r.pick(v) + (i > 1 ? r.pick(vector<string>{ ",", ", ", " , " }) : ""); } return s; };
		auto value = [&]() -> string {
			switch (r.below(8)) {
			case 0: return "&H" + n();
			case 1: return "&H" + string(r.below(12), 'F');
			case 2: return n();
			case 3: return time(".");
			case 4: return "Default";
			case 5: return soup_text(r);
			case 6: return r.pick(vector<string>{ "*Default", "0", "1", "-1", "&H", "&", "", "Effect", "Banner;" + n() });
			default: return n();
			}
		};
		auto values = [&]() { string s; for (size_t i = r.below(24); i; --i) { s += value() + (i > 1 ? "," : ""); } return s; };
		auto tag = [&]() -> string {
			switch (r.below(12)) {
			case 0: return "\\pos(" + n() + "," + n() + ")";
			case 1: return "\\an" + n();
			case 2: return "\\a" + n();
			case 3: return "\\fs" + n();
			case 4: return "\\fn" + soup_text(r);
			case 5: return "\\c&H" + n() + "&";
			case 6: return "\\c" + n();
			case 7: return "\\fad(" + n() + "," + n() + ")";
			case 8: return r.pick(vector<string>{ "\\i1", "\\i0", "\\b1", "\\b0", "\\u1", "\\u0", "\\i", "\\b", "\\u", "\\r", "\\rDefault", "\\", "\\\\" });
			case 9: return "\\move(" + n() + "," + n() + "," + n() + "," + n() + ")";
			case 10: return "\\t(" + n() + ",\\fs" + n() + ")";
			default: return "\\" + soup_text(r);
			}
		};
		switch (r.below(16)) {
		case 0: return r.pick(vector<string>{ "[Script Info]", "[V4 Styles]", "[V4+ Styles]", "[Events]", "[Fonts]", "[", "[]", "[events]" }) + eol;
		case 1: return "PlayResX: " + n() + eol;
		case 2: return "PlayResY: " + n() + eol;
		case 3: return wild(r) ? "Format: " + columns(style_columns) + eol : eol;
		case 4: return wild(r) ? "Style: " + values() + eol : eol;
		case 5: return "[V4+ Styles]" + eol + "Format: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, Italic, Underline, BorderStyle, Shadow, Alignment, MarginL, MarginR, MarginV" + eol
			+ "Style: Default,Arial," + n() + "," + value() + "," + value() + "," + n() + "," + n() + "," + n() + "," + n() + "," + n() + "," + n() + "," + n() + "," + n() + "," + n() + eol;
		case 6: return wild(r) ? "[Events]" + eol + "Format: " + columns(event_columns) + eol : eol;
		case 7: return "[Events]" + eol + "Format: Layer, Start, End, Style, MarginL, MarginR, MarginV, Effect, Text" + eol;
		case 8: return wild(r) ? "Dialogue: " + values() + eol : eol;
		case 9: return ": " + n() + eol;
		case 10: return (wild(r) ? "" : "Key: ") + soup_text(r) + eol;
		default: {
			string text;
			for (int i = r.below(8); i; --i) {
				switch (r.below(6)) {
				case 0: { text += "{"; for (int k = r.below(4); k; --k) { text += tag(); } text += r.chance(1, 8) ? "" : "}"; break; }
				case 1: text += r.pick(vector<string>{ "\\N", "\\n", "\\h", "\\", "\\x", "{", "}", "," }); break;
				default: text += soup_text(r);
				}
			}
			string const t1 = time("."), t2 = time(".");
			return "Dialogue: 0," + t1 + "," + t2 + ",Default," + n() + "," + n() + "," + n() + ",," + text + eol;
		}
		}
	}
	case STL_TEXT:
		switch (r.below(8)) {
		case 0: case 1: case 2: return n() + ":" + n() + ":" + n() + ":" + n() + " , " + n() + ":" + n() + ":" + n() + ":" + n() + " , " + soup_text(r);
		case 3: return "$" + r.pick(vector<string>{ "FontName", "FontSize", "Bold", "Italic", "Underlined", "X" }) + " = " + r.pick(vector<string>{ "True", "False", n(), "" }) + eol;
		case 4: return r.pick(vector<string>{ "^B", "^I", "^U", "^", "|", "^^", "^x", "//", ",", ",,,", "=" });
		case 5: case 6: return eol;
		default: return soup_text(r);
		}
	default: {
		string s(128, ' ');
		for (auto& c: s) { c = r.chance(1, 4) ? r.below(256) : r.pick(vector<int>{ 'a', ' ', 0x8a, 0x8f, 0x80, 0x81, 0x02, 0xc1, 0xc2 }); }
		if (!wild(r)) { s[15] = r.chance(1, 6); }
		if (r.chance(3, 4)) { s[3] = r.coin() ? 0xff : r.below(4); }
		if (r.coin()) { s[0] = 0; s[1] = r.below(3); s[2] = 0; }
		if (r.coin()) { for (int k = 5; k < 13; ++k) { s[k] = r.below(24); } }
		return s;
	}
	}
}

inline string soup(Rng& r, int format)
{
	wildness() = r.pick(vector<int>{ 0, 0, 5, 20, 100, 400 });
	string s;
	if (format == VTT && !wild(r)) { s = "WEBVTT\n\n"; }
	int const n = 1 + r.skewed(40);
	if (format == STL_BINARY) {
		auto h = gen_header(r, true);
		h.tnb = pad_number(r, !wild(r) ? n : r.below(n + 2), 5);
		if (wild(r)) { h.tnb = r.pick(vector<string>{ "99999", "-1", "     ", "0x10", "1e3" }); h.tnb.resize(5, ' '); }
		s = h.bytes();
	}
	// most scripts have their beginning
	if (format == SRT && !wild(r)) { s += "1\n00:00:01,000 --> 00:00:02,000\n"; }
	if (format == SSA && r.chance(5, 6)) { s += "[Events]\nFormat: Layer, Start, End, Style, MarginL, MarginR, MarginV, Effect, Text\n"; }
	for (int i = 0; i < n; ++i) { s += soup_fragment(r, wild(r) && format != STL_BINARY ? r.below(4) : format); }
	return s;
}

}

#endif
