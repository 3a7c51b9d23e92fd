// Generators of well-formed documents together with what reading them must yield.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H

#include "model.h"

namespace h {

// ---------------------------------------------------------------- text
inline string utf8(uint32_t c)
{
	string o;
	if (c < 0x80) { o += char(c); }
	else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	return o;
}

struct TextOpts
{
	string forbid;           // ASCII characters never to be used
	bool unicode = true;     // any script, otherwise the accented Latin letters of ISO 6937
	bool edges = true;       // may begin or end with a space
	size_t max = 60;         // length, mostly
	bool huge = false;       // sometimes thousands of bytes
	bool decimal_look = true;
};

inline uint32_t gen_char(Rng& r, TextOpts const& o)
{
	static const uint32_t latin[] = { 0xe9, 0xe8, 0xe0, 0xfc, 0xf6, 0xe4, 0xc9, 0xd6, 0xdf, 0xf1, 0xe7, 0x142, 0x107, 0x159, 0xe6, 0xf8, 0xa3, 0xbf, 0xa1, 0x2019, 0x201c, 0x201d, 0xab, 0xbb, 0x266a };
	static const uint32_t other[] = { 0x3b1, 0x3c9, 0x416, 0x44f, 0x5d0, 0x627, 0x905, 0x4e2d, 0x6587, 0x3042, 0xac00, 0x1f600, 0x10348, 0xa0, 0x85, 0x2026, 0x2013, 0x200b, 0x2029, 0xfffd, 0xe000, 0x10ffff };
	for (;;) {
		uint32_t c;
		switch (r.below(12)) {
		case 0: case 1: c = ' '; break;
		case 2:
			if (r.chance(1, 12)) { static const uint32_t odd[] = { '\t', '\v', '\f', 1, 7, 8, 0x1a, 0x1b, 0x1c, 0x1f, 0x7f }; c = r.pick(odd); break; }
			c = r.range('!', '~');
			break;
		case 3: c = '0' + r.below(10); break;
		case 4: c = r.pick(latin); break;
		case 5: if (!o.unicode) { continue; } c = r.coin() ? r.pick(other) : static_cast<uint32_t>(r.range(0xa1, 0xd7ff)); break;
		default: c = (r.chance(1, 5) ? 'A' : 'a') + r.below(26);
		}
		if (c < 0x80 && o.forbid.find(char(c)) != string::npos) { continue; }
		if (c == 0x2028 || c == 0x202b || c == 0xfeff || (c >= 0xd800 && c < 0xe000)) { continue; }
		return c;
	}
}

inline bool is_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

// not empty; no line ends
inline string gen_text(Rng& r, TextOpts const& o)
{
	string s;
	size_t n = 1 + r.skewed(o.max - 1);
	if (o.huge && r.chance(1, 40)) {
		static const int sizes[] = { 250, 253, 254, 255, 256, 257, 509, 510, 511, 512, 1023, 1024, 4095, 4096, 4097, 8192, 20000 };
		n = r.pick(sizes) + r.range(-3, 3);
		if (r.coin()) {
			// bytes rather than characters, so that ends fall exactly there
			TextOpts p = o; p.unicode = false;
			while (s.size() < n) { uint32_t c = gen_char(r, p); if (c < 0x80) { s += char(c); } }
		}
	}
	for (size_t i = 0; i < n && s.size() < n; ++i) { s += utf8(gen_char(r, o)); }
	if (!o.edges) {
		if (is_space(s.front())) { s.insert(0, "x"); }
		if (is_space(s.back())) { s += "y"; }
		// bytes of multi-byte white space are no concern here
	}
	return s;
}

inline int64_t gen_ms(Rng& r, int64_t max_hours)
{
	static const int64_t edges[] = { 0, 1, 9, 10, 99, 100, 499, 500, 501, 999, 1000, 1001, 59999, 60000, 3599999, 3600000, 35999999, 36000000 };
	int64_t t;
	if (r.chance(1, 4)) { t = r.pick(edges); }
	else if (r.chance(1, 4)) { t = r.range(0, max_hours * 3600 - 1) * 1000 + r.pick(vector<int64_t>{ 0, 1, 999, 500, 40, 960 }); }
	else { t = r.range(0, max_hours * 3600000 - 1); }
	return t % (max_hours * 3600000);
}

// ---------------------------------------------------------------- SubRip
struct SrtOpts
{
	bool markup = true;
	bool layout = true;       // vary the line ends, BOM, counters and so on
	TextOpts text;
	int max_cues = 8;
	int max_hours = 999;
	bool no_overrides = false;
	bool sequential = false;  // non-overlapping cues
	SrtOpts() { text.forbid = "<{"; text.huge = true; }
};

struct TextDoc
{
	string bytes;
	vector<Exp> exp;
	vector<size_t> time_lines;      // 1-based number of each cue's time line
	vector<string> lines;           // without line ends
	string eol;
	bool bom = false;
	bool final_eol = true;
	int features = 0;
	int cues = 0;
};

inline string serialise(TextDoc const& d, string const& eol, bool bom, bool final_eol)
{
	string o = bom ? "\xef\xbb\xbf" : "";
	for (size_t i = 0; i < d.lines.size(); ++i) {
		o += d.lines[i];
		if (i + 1 < d.lines.size() || final_eol) { o += eol; }
	}
	return o;
}

inline string srt_time(Rng& r, int64_t ms, char sep)
{
	char b[64];
	char const* f[] = { "%02d:%02d:%02d%c%03d", "%03d:%02d:%02d%c%03d", "%d:%02d:%02d%c%03d" };
	snprintf(b, sizeof(b), f[r.chance(3, 4) ? 0 : r.below(3)], int(ms / 3600000), int(ms / 60000 % 60), int(ms / 1000 % 60), sep, int(ms % 1000));
	return b;
}

inline string random_case(Rng& r, string s)
{
	if (r.chance(2, 3)) { return s; }
	bool all = r.coin();
	for (auto& c: s) { if (all || r.coin()) { c = toupper(c); } }
	return s;
}

inline string hex2(Rng& r, int v) { char b[8]; snprintf(b, sizeof(b), r.coin() ? "%02x" : "%02X", v); return b; }

inline void random_layout(Rng& r, TextDoc& d, bool vary)
{
	d.eol = vary && r.chance(1, 3) ? "\r\n" : "\n";
	d.bom = vary && r.chance(1, 4);
	d.final_eol = !vary || r.chance(3, 4);
	// a final empty line without a line end is no line
	d.bytes = serialise(d, d.eol, d.bom, d.final_eol);
}

inline TextDoc gen_srt(Rng& r, SrtOpts const& o)
{
	TextDoc d;
	int const cues = r.skewed(o.max_cues - 1) + 1;
	if (o.layout && r.chance(1, 4)) { for (int i = r.range(1, 3); i; --i) { d.lines.push_back(""); } }
	int64_t seq = 0;
	for (int c = 0; c < cues; ++c) {
		++d.cues;
		size_t const first_line = d.lines.size(), first_exp = d.exp.size();
		static const char* counters[] = { "1", "0", "42", "xyz", "1000000", "-7", "<i>", "one two three" };
		d.lines.push_back(o.layout && r.chance(1, 4) ? r.pick(counters) : std::to_string(c + 1));
		int64_t from = gen_ms(r, o.max_hours), to = gen_ms(r, o.max_hours);
		if (o.sequential) {
			from = seq + r.range(1, 5000);
			to = from + r.range(500, 8000);
			seq = to;
		} else if (r.chance(1, 2)) { to = std::min<int64_t>(from + r.below(5000), o.max_hours * 3600000LL - 1); }
		string t = srt_time(r, from, ',');
		t += o.layout && r.chance(1, 6) ? (r.chance(1, 6) ? string(r.range(2, 50), ' ') + "-->" + string(r.range(1, 50), ' ') : string("   -->  ")) : string(" --> ");
		t += srt_time(r, to, ',');
		if (o.layout && r.chance(1, 6)) { t += " X1:100 X2:200  Y1:10 Y2:20"; }
		if (o.layout && r.chance(1, 6)) { t += "  "; }
		d.lines.push_back(t);
		d.time_lines.push_back(d.lines.size());

		Exp state;
		state.from = ms_text(from);
		state.to = ms_text(to);
		state.vline = 0;
		state.vref = int(sub::TOP_OF_SUBTITLE);
		state.cue = c;
		vector<Col> stack(1);
		int const nlines = r.chance(1, 12) ? 0 : r.chance(1, 250) ? r.range(10, 300) : 1 + r.skewed(4);
		for (int l = 0; l < nlines; ++l) {
			string line;
			int const subs = r.chance(1, 8) ? r.range(2, 4) : 1;
			for (int k = 0; k < subs; ++k) {
				if (k) { line += "\xe2\x80\xa8"; d.features |= 1; }
				if (o.markup && !o.no_overrides && l == 0 && k == 0 && r.chance(1, 6)) {
					d.features |= 2;
					if (r.chance(3, 4)) {
						int const an = r.range(1, 9);
						line += "{\\an" + std::to_string(an) + "}";
						static const int href[] = { int(sub::LEFT_OF_SCREEN), int(sub::HORIZONTAL_CENTRE_OF_SCREEN), int(sub::RIGHT_OF_SCREEN) };
						state.href = href[(an - 1) % 3];
						state.hprop = 0;
						static const int vref[] = { int(sub::BOTTOM_OF_SCREEN), int(sub::VERTICAL_CENTRE_OF_SCREEN), int(sub::TOP_OF_SCREEN) };
						state.vref = vref[(an - 1) / 3];
					} else {
						int const x = r.range(0, 288), y = r.range(0, 288);
						line += "{\\pos(" + std::to_string(x) + "," + std::to_string(y) + ")}";
						state.href = int(sub::LEFT_OF_SCREEN);
						state.hprop = x / 288.0;
						state.vref = int(sub::TOP_OF_SCREEN);
						state.vprop = y / 288.0;
					}
				}
				// an empty piece between separators is an empty line of the cue
				int pieces = subs > 1 && r.chance(1, 5) ? 0 : (o.markup ? 1 + r.skewed(9) : 1);
				for (int p = 0; p < pieces; ++p) {
					if (r.chance(1, 20)) {
						// a run of nothing but right-to-left marks shows nothing
						for (int i = r.range(1, 3); i; --i) { line += "\xe2\x80\xab"; }
						d.features |= 4;
						if (o.markup) { continue; }
					}
					if (o.markup && r.chance(1, 250)) {
						// fonts within fonts, all closed again
						int const depth = r.chance(1, 4) ? r.range(10, 300) : r.range(4, 12);
						vector<Col> cols(1, state.colour);
						int open = 0;
						for (int i = 0; i < depth * 2; ++i) {
							if (i < depth) {
								int const cr = r.below(256), cg = r.below(256), cb = r.below(256);
								line += "<font color=\"#" + hex2(r, cr) + hex2(r, cg) + hex2(r, cb) + "\">";
								Col x; x.r = cr / 255.0; x.g = cg / 255.0; x.b = cb / 255.0;
								cols.push_back(x);
								++open;
							} else { line += "</font>"; cols.pop_back(); --open; }
							if (r.chance(1, 3)) { Exp e = state; e.colour = cols.back(); e.text = string(1, 'a' + r.below(26)); d.exp.push_back(e); line += e.text; }
						}
						d.features |= 16;
						continue;
					}
					if (!o.markup || r.chance(1, 2)) {
						string text = gen_text(r, o.text);
						if (r.chance(1, 10)) {
							static const char* odd[] = { "< 3", "a < b", "{ }", "1<2", "<", "{", "<>", "{x", "<-", "&lt;", "&amp;", "\\N", "}", "->", "-->", "  " };
							text = r.pick(odd);
						}
						string shown = text;
						while (r.chance(1, 12)) { shown.insert(r.coin() ? 0 : shown.size(), "\xe2\x80\xab"); d.features |= 4; }
						Exp e = state;
						e.text = text;
						d.exp.push_back(e);
						line += shown;
						// what follows must not join up with an unfinished tag
						if (text.back() == '<' || text.back() == '{') { line += " "; Exp f = state; f.text = " "; d.exp.push_back(f); }
						continue;
					}
					d.features |= 8;
					bool const brace = r.chance(1, 4);
					auto tag = [&](string name, bool open) {
						if (r.chance(1, 8)) { d.features |= 256; return "{\\" + name + (open ? "1}" : "0}"); }
						return string(brace ? "{" : "<") + (open ? "" : "/") + random_case(r, name) + (brace ? "}" : ">");
					};
					switch (r.below(5)) {
					case 0: { bool on = r.chance(3, 5) != state.bold ? true : false; line += tag("b", on); state.bold = on; break; }
					case 1: { bool on = r.chance(3, 5) != state.italic ? true : false; line += tag("i", on); state.italic = on; break; }
					case 2: { bool on = r.chance(3, 5) != state.underline ? true : false; line += tag("u", on); state.underline = on; break; }
					case 3: {
						d.features |= 16;
						int cr = r.below(256), cg = r.below(256), cb = r.below(256);
						if (r.chance(1, 4)) { cr = r.coin() * 255; cg = r.coin() * 255; cb = r.coin() * 255; }
						string col;
						if (r.chance(1, 8)) {
							// one without a colour changes nothing
							static const char* const others[] = { "", " face=\"Arial\"", " size=12", " size=\"4\" face='Times New Roman'", " SIZE=\"#112233\"", " face=\"Colorado\"", " FACE='Two Colors' size=3", " face=\"color\"" };
							line += "<" + random_case(r, "font") + r.pick(others) + ">";
							stack.push_back(state.colour);
							break;
						}
						switch (r.below(3)) {
						case 0: col = "#" + hex2(r, cr) + hex2(r, cg) + hex2(r, cb); break;
						case 1: col = "#" + hex2(r, cr) + hex2(r, cg) + hex2(r, cb) + hex2(r, r.below(256)); break;
						default: {
							auto sp = [&]() { return string(r.chance(1, 4) ? r.range(1, 2) : 0, ' '); };
							auto n = [&](int v) { return sp() + std::to_string(v) + sp(); };
							col = "rgba(" + n(cr) + "," + n(cg) + "," + n(cb) + "," + n(r.below(256)) + ")";
						}
						}
						static const char* quotes[] = { "\"", "'", "" };
						string q = col[0] == '#' ? r.pick(quotes) : "\"";
						string t = "<" + random_case(r, "font");
						if (r.chance(1, 4)) { t += " face=\"Arial\""; }
						else if (r.chance(1, 8)) { t += " face='Technicolor'"; }
						string name = r.chance(3, 4) ? "color" : random_case(r, "color");
						if (col[0] != '#' && r.chance(1, 8)) { for (auto& ch: col) { ch = toupper(static_cast<unsigned char>(ch)); } }
						t += string(1 + r.below(2), ' ') + name + "=" + q + col + q;
						if (r.chance(1, 4)) { t += " size=\"12\""; }
						line += t + ">";
						Col x; x.r = cr / 255.0; x.g = cg / 255.0; x.b = cb / 255.0;
						stack.push_back(x);
						state.colour = x;
						break;
					}
					default:
						line += "<" + string("/") + random_case(r, "font") + ">";
						if (stack.size() > 1) { stack.pop_back(); }
						else { d.features |= 32; }
						state.colour = stack.back();
					}
				}
				state.vline = *state.vline + 1;
			}
			// an empty line would end the cue
			if (line.empty()) {
				line = "<i></i>";
				if (!o.markup) { line = "x"; Exp e = state; e.vline = *e.vline - 1; e.text = "x"; d.exp.push_back(e); }
				else { state.italic = false; }
			}
			if (l && stack.size() > 1) { d.features |= 64; }
			d.lines.push_back(line);
		}
		// the same again
		if (o.layout && !o.sequential && r.chance(1, 20)) {
			vector<string> const again(d.lines.begin() + first_line, d.lines.end());
			vector<Exp> const exp(d.exp.begin() + first_exp, d.exp.end());
			for (int i = r.range(1, 2); i; --i) {
				++d.cues;
				d.lines.push_back("");
				d.time_lines.push_back(d.lines.size() + 2);
				d.lines.insert(d.lines.end(), again.begin(), again.end());
				d.exp.insert(d.exp.end(), exp.begin(), exp.end());
			}
			d.features |= 128;
		}
		int blanks = o.layout && r.chance(1, 6) ? r.range(2, 4) : 1;
		if (c == cues - 1 && r.coin()) { blanks = 0; }
		for (int i = 0; i < blanks; ++i) { d.lines.push_back(""); }
	}
	random_layout(r, d, o.layout);
	return d;
}

// ---------------------------------------------------------------- WebVTT
struct VttOpts
{
	TextOpts text;
	int max_cues = 8;
	bool layout = true;
	bool sequential = false;
	VttOpts() { text.huge = true; }
};

inline TextDoc gen_vtt(Rng& r, VttOpts const& o)
{
	TextDoc d;
	static const char* headers[] = { "WEBVTT", "WEBVTT - some title", "WEBVTT FILE", "WEBVTT\tx" };
	d.lines.push_back(o.layout ? r.pick(headers) : "WEBVTT");
	// header text
	if (o.layout && r.chance(1, 3)) { d.lines.push_back("Kind: captions"); d.lines.push_back("Language: en"); }
	d.lines.push_back("");
	int const items = r.skewed(o.max_cues) + 1;
	int64_t seq = 0;
	for (int c = 0; c < items; ++c) {
		int const what = o.layout ? r.below(8) : 7;
		if (what == 0) {
			d.features |= 1;
			d.lines.push_back(r.coin() ? "NOTE" : "NOTE " + gen_text(r, o.text));
			for (int i = r.below(4); i; --i) {
				switch (r.below(5)) {
				case 4: d.lines.push_back(r.pick(vector<string>{ " ", "   ", "\t", "STYLE", "WEBVTT", "1" })); break;
				case 0: d.lines.push_back("00:00:01.000 --> 00:00:02.000"); break;
				case 1: d.lines.push_back("NOTE again"); break;
				case 2: d.lines.push_back("x --> y"); break;
				default: d.lines.push_back(gen_text(r, o.text));
				}
			}
			d.lines.push_back("");
			continue;
		}
		if (what == 1) {
			d.features |= 2;
			d.lines.push_back("STYLE");
			d.lines.push_back("::cue { color: lime }");
			if (r.chance(1, 4)) { d.lines.push_back("NOTEPAD"); d.lines.push_back("  "); d.lines.push_back("}"); }
			d.lines.push_back("");
			continue;
		}
		if (what == 2) { for (int i = r.range(1, 3); i; --i) { d.lines.push_back(""); } }
		if (what == 3 || what == 4) {
			d.features |= 4;
			static const char* ids[] = { "1", "intro", "00:00:01.000", "cue - 3", "a b c", "->", "WEBVTT", "note", "NOTES", "NOTE1", "NOTE:x" };
			string id = r.pick(ids);
			if (r.chance(1, 4)) {
				id = gen_text(r, o.text);
				if (id.find("-->") != string::npos || id.compare(0, 4, "NOTE") == 0) { id = "id"; }
			}
			d.lines.push_back(id);
		}
		++d.cues;
		size_t const first_exp = d.exp.size();
		int64_t from = gen_ms(r, 999), to = gen_ms(r, 999);
		if (o.sequential) { from = seq + r.range(1, 5000); to = from + r.range(500, 8000); seq = to; }
		// the hours may be left out
		auto vtt_time = [&](int64_t ms) {
			if (!o.layout || ms >= 3600000 || !r.chance(1, 4)) { return srt_time(r, ms, '.'); }
			char b[64];
			snprintf(b, sizeof(b), "%02d:%02d.%03d", int(ms / 60000), int(ms / 1000 % 60), int(ms % 1000));
			d.features |= 32;
			return string(b);
		};
		if (o.layout && !o.sequential && r.chance(1, 6)) { from %= 3600000; to %= 3600000; }
		string t = vtt_time(from);
		t += o.layout && r.chance(1, 6) ? (r.chance(1, 6) ? string(r.range(2, 50), ' ') + "-->" + string(r.range(1, 50), ' ') : r.pick(vector<string>{ "  -->   ", "\t-->\t", " \t --> " })) : string(" --> ");
		t += vtt_time(to);
		if (o.layout && r.chance(1, 4)) {
			static const char* settings[] = { "align:start", "position:10%", "line:0", "size:50%", "vertical:rl", "region:fred", "line:-1,end", "position:30%,line-left" };
			for (int k = r.range(1, 6); k; --k) { t += (r.chance(1, 6) ? "\t" : " ") + string(r.pick(settings)); }
			d.features |= 8;
		}
		if (o.layout && r.chance(1, 6)) { t += "  "; }
		d.lines.push_back(t);
		d.time_lines.push_back(d.lines.size());
		Exp e;
		e.from = ms_text(from);
		e.to = ms_text(to);
		e.vref = int(sub::TOP_OF_SUBTITLE);
		e.vline = 0;
		e.cue = c;
		int const nlines = r.chance(1, 12) ? 0 : r.chance(1, 250) ? r.range(10, 300) : 1 + r.skewed(4);
		for (int l = 0; l < nlines; ++l) {
			string line;
			int const subs = r.chance(1, 8) ? r.range(2, 4) : 1;
			for (int k = 0; k < subs; ++k) {
				if (k) { line += "\xe2\x80\xa8"; d.features |= 16; }
				if (subs == 1 || r.chance(4, 5)) {
					e.text = gen_text(r, o.text);
					if (r.chance(1, 10)) {
						static const char* odd[] = { "NOTE this is text", "WEBVTT", "STYLE", "<b>bold</b>", "<v Bob>hello", "&amp;", "  ", "1", "{\\an8}" };
						e.text = r.pick(odd);
					}
					// "-->" may not occur in cue text
					size_t p;
					while ((p = e.text.find("-->")) != string::npos) { e.text.erase(p, 1); }
					line += e.text;
					d.exp.push_back(e);
				}
				e.vline = *e.vline + 1;
			}
			if (line.empty()) { line = "z"; e.text = "z"; e.vline = *e.vline - 1; d.exp.push_back(e); e.vline = *e.vline + 1; }
			d.lines.push_back(line);
		}
		// the same again
		if (o.layout && !o.sequential && r.chance(1, 20)) {
			vector<string> const again(d.lines.begin() + d.time_lines.back() - 1, d.lines.end());
			vector<Exp> const exp(d.exp.begin() + first_exp, d.exp.end());
			for (int i = r.range(1, 2); i; --i) {
				++d.cues;
				d.lines.push_back("");
				d.time_lines.push_back(d.lines.size() + 1);
				d.lines.insert(d.lines.end(), again.begin(), again.end());
				d.exp.insert(d.exp.end(), exp.begin(), exp.end());
			}
			d.features |= 64;
		}
		if (c < items - 1 || r.coin()) { d.lines.push_back(""); }
	}
	random_layout(r, d, o.layout);
	return d;
}

// ---------------------------------------------------------------- text STL
struct StlTextOpts
{
	TextOpts text;
	int max_cues = 8;
	bool layout = true;
	StlTextOpts() { text.forbid = "|^"; text.huge = true; }
};

inline string hmsf(int h, int m, int s, int f) { char b[64]; snprintf(b, sizeof(b), "%02d:%02d:%02d:%02d", h, m, s, f); return b; }

inline TextDoc gen_stl_text(Rng& r, StlTextOpts const& o)
{
	TextDoc d;
	Exp state;
	state.vref = int(sub::TOP_OF_SUBTITLE);
	int const items = r.skewed(o.max_cues * 2) + 1;
	for (int c = 0; c < items; ++c) {
		int const what = o.layout ? r.below(10) : 9;
		if (what == 0) { d.lines.push_back("//" + (r.coin() ? string(" 00:00:00:01 , 00:00:00:02 , no") : gen_text(r, o.text))); d.features |= 1; continue; }
		if (what == 1) { d.lines.push_back(""); continue; }
		if (what == 2) {
			static const char* junk[] = { "nothing to see", "a, b", "00:00:01:00 , 00:00:02:00", "$Odd", "00:00:01 , 00:00:02:00 , x", ",,,", "1,2,3", "$a=b=c", "$FontName = Arial = Bold", "$Bold==True", "$Italic = True = True", "$FontSize=12=13", "00:00:01:00 , 00:00:02 , short" };
			d.lines.push_back(r.pick(junk));
			d.features |= 2;
			continue;
		}
		if (what == 3 || what == 4 || what == 5) {
			d.features |= 4;
			string eq = r.pick(vector<string>{ "=", " = ", "= ", " =" });
			bool const b = r.coin();
			string const bs = b ? "True" : "False";
			switch (r.below(6)) {
			case 0: { string f = r.pick(vector<string>{ "Arial", "Times New Roman", "H\xc3\xa9lv\xc3\xa9tica" }); d.lines.push_back("$FontName" + eq + f); state.font = f; break; }
			case 1: { int n = r.range(1, 200); d.lines.push_back("$FontSize" + eq + std::to_string(n)); state.fs_points = n; break; }
			case 2: d.lines.push_back("$Bold" + eq + bs); state.bold = b; break;
			case 3: d.lines.push_back("$Italic" + eq + bs); state.italic = b; break;
			case 4: d.lines.push_back("$Underlined" + eq + bs); state.underline = b; break;
			default: d.lines.push_back("$HorzAlign" + eq + "Center"); break;
			}
			continue;
		}
		++d.cues;
		size_t const first_exp = d.exp.size();
		int t[8];
		for (int i = 0; i < 2; ++i) { t[i * 4] = r.below(100); t[i * 4 + 1] = r.below(60); t[i * 4 + 2] = r.below(60); t[i * 4 + 3] = r.below(30); }
		state.from = hmsf(t[0], t[1], t[2], t[3]);
		state.to = hmsf(t[4], t[5], t[6], t[7]);
		auto space = [&]() {
			string s(r.chance(1, 4) ? r.below(3) : 1, ' ');
			for (auto& c: s) { if (r.chance(1, 12)) { c = '\t'; } }
			return s;
		};
		string const sp1 = space(), sp2 = space(), sp3 = space();
		string text;
		state.vline = 0;
		Exp const before = state;
		int const nlines = r.chance(1, 250) ? r.range(10, 300) : 1 + r.skewed(4);
		for (int l = 0; l < nlines; ++l) {
			if (l) { text += "|"; state.vline = *state.vline + 1; d.features |= 8; }
			int pieces = nlines > 1 && r.chance(1, 6) ? 0 : 1 + r.skewed(4);
			for (int p = 0; p < pieces; ++p) {
				if (r.chance(1, 3)) {
					d.features |= 16;
					// a toggle that means nothing
					if (r.chance(1, 8)) { text += r.pick(vector<string>{ "^^", "^x", "^b", "^ ", "^1", "^i", "^u", "^," }); }
					switch (r.below(3)) {
					case 0: text += "^B"; state.bold = !state.bold; break;
					case 1: text += "^I"; state.italic = !state.italic; break;
					default: text += "^U"; state.underline = !state.underline;
					}
				}
				TextOpts to = o.text;
				to.edges = true;
				Exp e = state;
				e.text = gen_text(r, to);
				if (r.chance(1, 10)) { e.text = r.pick(vector<string>{ "//", "http://x.y", " // ", "$", "$Bold = True", "a=b", ",", ",,", "00:00:01:00 , 00:00:02:00 , x", ":", "{b}", "<i>", "\\N", "#", ";", "1" }); }
				d.exp.push_back(e);
				text += e.text;
			}
		}
		// whole lines are trimmed, so a printing character ends the text; toggles are closed again
		bool const space_end = text.empty() || isspace(static_cast<unsigned char>(text.back()));
		if (space_end) { Exp e = state; e.text = "."; d.exp.push_back(e); text += "."; }
		if (state.bold != before.bold) { text += "^B"; }
		if (state.italic != before.italic) { text += "^I"; }
		if (state.underline != before.underline) { text += "^U"; }
		if (nlines > 1 && r.chance(1, 8)) { text += "|"; d.features |= 32; }
		if (r.chance(1, 12)) { text += "^"; }
		state.bold = before.bold; state.italic = before.italic; state.underline = before.underline;
		string lead = o.layout && r.chance(1, 10) ? r.pick(vector<string>{ " ", "\t", "  " }) : "";
		d.lines.push_back(lead + state.from + sp1 + "," + sp2 + state.to + sp3 + "," + text);
		if (sp1.empty()) { d.features |= 64; }
		// the same again
		if (r.chance(1, 20)) {
			vector<Exp> const exp(d.exp.begin() + first_exp, d.exp.end());
			for (int i = r.range(1, 2); i; --i) {
				++d.cues;
				string const same = d.lines.back();
				d.lines.push_back(same);
				d.exp.insert(d.exp.end(), exp.begin(), exp.end());
			}
			d.features |= 128;
		}
	}
	random_layout(r, d, o.layout);
	return d;
}

// time of an STL text file: no frame rate
inline string unrated_time(sub::Time const& t)
{
	string s = desc(t);
	// hh:mm:ss:f, with f not padded
	auto p = s.rfind(':');
	if (p != string::npos && s.find('@') == string::npos) {
		string f = s.substr(p + 1);
		if (f.size() == 1) { f = "0" + f; }
		return s.substr(0, p + 1) + f;
	}
	return s;
}

}

#endif
