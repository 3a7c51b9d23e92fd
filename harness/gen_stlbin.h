// Generator of binary STL files, with what reading them must yield.
#ifndef VERIF_GEN_STLBIN_H
#define VERIF_GEN_STLBIN_H

#include "iso6937_ref.h"
#include "stl_codes.h"

namespace h {

struct Header
{
	string cpn = "850", dfc = "STL25.01", dsc = "0", cct = "00", lc = "09";
	string opt, oet, tpt, tet, tn, tcd;       // 32 each
	string slr;                                // 16
	string cd = "200101", rd = "200102", rn = "00";
	string tnb, tns = "00001", tng = "001", mnc = "40", mnr = "23";
	string tcs = "1", tcp = "00000000", tcf = "00000000", tnd = "1", dsn = "1", co = "GBR";
	string pub, en, ecd;                       // 32 each
	string rest;
	string bytes() const {
		string o(1024, ' ');
		auto put = [&](size_t at, size_t n, string const& s) {
			if (s.size() > n) { fprintf(stderr, "harness: field too long at %zu\n", at); _exit(3); }
			o.replace(at, s.size(), s);
		};
		put(0, 3, cpn); put(3, 8, dfc); put(11, 1, dsc); put(12, 2, cct); put(14, 2, lc);
		put(16, 32, opt); put(48, 32, oet); put(80, 32, tpt); put(112, 32, tet); put(144, 32, tn); put(176, 32, tcd);
		put(208, 16, slr); put(224, 6, cd); put(230, 6, rd); put(236, 2, rn); put(238, 5, tnb); put(243, 5, tns);
		put(248, 3, tng); put(251, 2, mnc); put(253, 2, mnr); put(255, 1, tcs); put(256, 8, tcp); put(264, 8, tcf);
		put(272, 1, tnd); put(273, 1, dsn); put(274, 3, co); put(277, 32, pub); put(309, 32, en); put(341, 32, ecd);
		if (!rest.empty()) { put(373, 651, rest); }
		return o;
	}
};

struct Tti
{
	int sgn = 0, sn = 0, ebn = 0xff, cs = 0;
	unsigned char tci[4] = { 0, 0, 0, 0 }, tco[4] = { 0, 0, 0, 0 };
	int vp = 0, jc = 2, cf = 0;
	string tf;
	string bytes() const {
		string o;
		o += char(sgn); o += char(sn & 255); o += char(sn >> 8); o += char(ebn); o += char(cs);
		o.append(reinterpret_cast<char const*>(tci), 4); o.append(reinterpret_cast<char const*>(tco), 4);
		o += char(vp); o += char(jc); o += char(cf);
		o += tf;
		o.append(112 - tf.size(), char(0x8f));
		return o;
	}
};

struct StlBinDoc
{
	Header header;
	vector<Tti> blocks;
	vector<Exp> exp;
	string bytes;
	int rate = 25;       // frames in a second of time code
	int subtitles = 0;
	int features = 0;
};

inline string stl_time(int hh, int m, int s, int f, int rate) { return hmsx(hh, m, s, f, ("@" + std::to_string(rate)).c_str()); }
inline TimeFmt stl_fmt(int rate) { return [rate](sub::Time const& t) { return stl_time(t.hours(), t.minutes(), t.seconds(), t.frames_at(sub::Rational(rate, 1)), rate); }; }

inline string gen_field(Rng& r, size_t n)
{
	string s;
	switch (r.below(5)) {
	case 0: s = string(n, ' '); break;
	case 1: for (size_t i = 0; i < n; ++i) { s += char(r.below(256)); } break;
	case 2: for (size_t i = r.below(n + 1); i; --i) { s += char(r.range(33, 126)); } s.resize(n, ' '); break;
	case 3: for (size_t i = 0; i < n; ++i) { s += char(r.range(33, 126)); } break;
	default: s = "Some Title"; s.resize(n, ' '); break;
	}
	return s;
}

inline string pad_number(Rng& r, int v, int width)
{
	string s = std::to_string(v);
	while (int(s.size()) < width) { s.insert(0, r.chance(1, 8) ? " " : "0"); }
	// spaces may only lead
	size_t p = s.find_last_of(' ');
	if (p != string::npos) { for (size_t i = 0; i < p; ++i) { s[i] = ' '; } }
	return s;
}

inline Header gen_header(Rng& r, bool texts)
{
	Header h;
	if (texts) {
		h.cpn = r.pick(vector<string>{ "437", "850", "860", "863", "865", "001", "999", "000", "037", "010", "012", "089" });
		h.dsc = r.pick(display_standard_codes).code;
		h.cct = r.pick(language_group_codes).code;
		h.lc = r.pick(language_codes).code;
		h.opt = gen_field(r, 32); h.oet = gen_field(r, 32); h.tpt = gen_field(r, 32); h.tet = gen_field(r, 32);
		h.tn = gen_field(r, 32); h.tcd = gen_field(r, 32); h.slr = gen_field(r, 16);
		h.cd = gen_field(r, 6); h.rd = gen_field(r, 6); h.rn = gen_field(r, 2);
		h.tns = pad_number(r, r.below(100000), 5);
		h.tng = pad_number(r, r.below(1000), 3);
		h.mnc = pad_number(r, r.below(100), 2);
		h.tcs = r.pick(timecode_status_codes).code;
		h.tcp = gen_field(r, 8); h.tcf = gen_field(r, 8);
		h.tnd = std::to_string(r.range(0, 9)); h.dsn = std::to_string(r.range(0, 9));
		h.co = gen_field(r, 3); h.pub = gen_field(r, 32); h.en = gen_field(r, 32); h.ecd = gen_field(r, 32);
		if (r.coin()) { for (int i = 0; i < 651; ++i) { h.rest += char(r.below(256)); } }
	}
	auto const& rc = r.pick(rate_codes);
	h.dfc = rc.dfc;
	int const mnr = r.chance(1, 4) ? 99 : r.chance(1, 2) ? 23 : r.range(1, 98);
	h.mnr = pad_number(r, mnr, 2);
	return h;
}

struct StlBinOpts
{
	int max_subs = 8;
	bool header_texts = false;
	bool odd_bytes = true;     // bytes without a meaning
	bool comments = true;
	bool increasing = false;   // in order of time
};

inline StlBinDoc gen_stl_bin(Rng& r, StlBinOpts const& o)
{
	StlBinDoc d;
	d.header = gen_header(r, o.header_texts);
	for (auto const& c: rate_codes) { if (d.header.dfc == c.dfc) { d.rate = c.nominal; } }
	int mnr = atoi(d.header.mnr.c_str());
	int const rows_on_screen = mnr == 99 ? 12 : mnr;
	int const n = r.chance(1, 20) ? 0 : 1 + r.skewed(o.max_subs - 1);
	int highest = 0;
	int64_t clock = r.below(1000);
	bool const high_rows = r.chance(1, 4);
	for (int i = 0; i < n; ++i) {
		auto comment = [&]() {
			if (!o.comments || !r.chance(1, 5)) { return; }
			Tti t;
			t.sgn = r.below(256); t.sn = i; t.ebn = r.coin() ? 0xff : r.below(256); t.cs = r.below(4);
			for (int k = 0; k < 4; ++k) { t.tci[k] = r.below(20); t.tco[k] = r.below(20); }
			t.vp = r.below(256); t.jc = r.below(4);
			if (r.chance(2, 3)) { t.cf = 1; d.features |= 1; }
			else { t.ebn = 0xfe; d.features |= 2; }
			for (int k = r.below(113); k; --k) { t.tf += char(r.below(256)); }
			d.blocks.push_back(t);
		};
		comment();
		++d.subtitles;
		size_t const first_block = d.blocks.size(), first_exp = d.exp.size();
		Tti t;
		t.sgn = r.chance(1, 4) ? r.below(256) : 0;
		t.sn = r.chance(1, 8) ? r.below(65536) : i;
		t.cs = r.chance(1, 6) ? r.below(4) : 0;
		auto set = [&](unsigned char* p) {
			if (o.increasing) {
				clock += r.range(d.rate / 2, d.rate * 5);
				int64_t s = clock / d.rate;
				p[0] = s / 3600; p[1] = s / 60 % 60; p[2] = s % 60; p[3] = clock % d.rate;
				return;
			}
			p[0] = r.chance(1, 6) ? r.below(256) : r.below(24); p[1] = r.below(60); p[2] = r.below(60); p[3] = r.chance(1, 4) ? d.rate - 1 : r.below(d.rate);
		};
		set(t.tci);
		set(t.tco);
		t.jc = r.below(4);
		t.vp = high_rows ? r.below(120) : r.below(std::max(1, rows_on_screen - 3));
		if (r.chance(1, 40)) { t.vp = r.below(256); }

		Exp base;
		base.from = stl_time(t.tci[0], t.tci[1], t.tci[2], t.tci[3], d.rate);
		base.to = stl_time(t.tco[0], t.tco[1], t.tco[2], t.tco[3], d.rate);
		base.href = t.jc == 1 ? int(sub::LEFT_OF_SCREEN) : t.jc == 3 ? int(sub::RIGHT_OF_SCREEN) : int(sub::HORIZONTAL_CENTRE_OF_SCREEN);
		base.vref = int(sub::TOP_OF_SCREEN);
		base.vlines = rows_on_screen;
		base.cue = d.subtitles;

		string text;
		bool wordy = r.chance(1, 4);
		bool const exact = r.chance(1, 8);
		// some have far more rows than there are on a screen
		bool const tall = r.chance(1, 60);
		int const rows = tall ? r.range(12, 90) : 1 + r.skewed(4);
		int row = 0;
		for (int k = 0; k < rows; ++k) {
			if (k) {
				int lf = r.chance(1, 4) ? r.range(2, 4) : 1;
				// as some programs end every row
				if (r.chance(1, 16)) { text += string(r.range(1, 5), char(0x8f)); d.features |= 1024; }
				text += string(lf, char(0x8a));
				row += lf;
			}
			base.colour = Col();
			base.vline = t.vp + row;
			string run;
			auto flush = [&]() {
				if (run.empty()) { return; }
				Exp e = base;
				e.text = iso::to_utf8(iso::decode(run));
				d.exp.push_back(e);
				run.clear();
			};
			if (tall) { wordy = false; }
			int pieces = rows > 1 && r.chance(1, 8) ? 0 : 1 + r.skewed(tall ? 2 : 7);
			for (int p = 0; p < pieces; ++p) {
				switch (r.below(6)) {
				case 0: {
					flush();
					int c = r.below(8);
					text += char(c);
					base.colour.r = c & 1; base.colour.g = c >> 1 & 1; base.colour.b = c >> 2 & 1;
					d.features |= 4;
					break;
				}
				case 1: flush(); base.italic = r.chance(3, 4) ? !base.italic : base.italic; text += char(base.italic ? 0x80 : 0x81); d.features |= 8; break;
				case 2: flush(); base.underline = r.chance(3, 4) ? !base.underline : base.underline; text += char(base.underline ? 0x82 : 0x83); d.features |= 16; break;
				default:
					for (int c = wordy ? r.range(10, 60) : 1 + r.skewed(12); c; --c) {
						string b;
						switch (r.below(8)) {
						case 0: b = iso::tables().encode.at(r.pick(iso::tables().repertoire)); break;
						case 1: { auto const& x = r.pick(iso::tables().composed); b = iso::tables().encode.at(x); d.features |= 32; break; }
						case 2:
							if (o.odd_bytes && r.chance(1, 3)) {
								// codes for teletext boxes, sizes and the like, and unassigned codes: no text
								static const unsigned char odd[] = { 0x08, 0x09, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x1c, 0x1d, 0x1f, 0x7f, 0x84, 0x85, 0x86, 0x89, 0x8b, 0x8e, 0x90, 0x9f, 0xa0, 0xa6, 0xc0, 0xd8, 0xdb, 0xe5 };
								b = string(1, char(r.pick(odd)));
								d.features |= 64;
								break;
							}
							// fall through
						case 3: b = " "; break;
						default: b = string(1, char('a' + r.below(26)));
						}
						// an accent is completed by what follows it
						run += b;
						text += b;
					}
				}
			}
			flush();
			highest = std::max(highest, t.vp + row);
		}
		// divide into blocks; an exact multiple of the block size leaves no unused space
		if (exact) {
			while (text.size() % 112) {
				text += '~';
				Exp e = base;
				e.text = "~";
				d.exp.push_back(e);
			}
			d.features |= 128;
		}
		size_t at = 0;
		int ebn = 0;
		do {
			size_t take = std::min<size_t>(112, text.size() - at);
			// a block need not be full
			if (!tall && at + take < text.size() && r.chance(1, 6)) { take = r.range(1, take); }
			Tti b = t;
			b.tf = text.substr(at, take);
			// unused space inside what is later extended is padding only
			at += take;
			b.ebn = at >= text.size() ? 0xff : ebn;
			++ebn;
			if (ebn > 0xf0 && at < text.size()) { fprintf(stderr, "harness: too long\n"); _exit(3); }
			if (ebn > 1) { d.features |= 256; if (r.chance(1, 4)) { b.vp = r.below(200); b.jc = r.below(4); } }
			d.blocks.push_back(b);
			// blocks that are no part of the subtitle may come between those that are
			if (at < text.size()) { comment(); }
		} while (at < text.size());
		// the same again
		if (!o.increasing && r.chance(1, 20)) {
			vector<Tti> const again(d.blocks.begin() + first_block, d.blocks.end());
			vector<Exp> const exp(d.exp.begin() + first_exp, d.exp.end());
			for (int k = r.range(1, 2); k; --k) {
				++d.subtitles;
				d.blocks.insert(d.blocks.end(), again.begin(), again.end());
				d.exp.insert(d.exp.end(), exp.begin(), exp.end());
			}
			d.features |= 2048;
		}
	}
	if (o.comments && r.chance(1, 6)) { Tti t; t.cf = 1; t.tf = "the end"; d.blocks.push_back(t); }
	// rows that would leave the bottom of the screen move the whole file up
	if (highest > rows_on_screen) {
		for (auto& e: d.exp) { *e.vline -= highest - rows_on_screen; }
		d.features |= 512;
	}
	char tnb[16];
	snprintf(tnb, sizeof(tnb), "%05zu", d.blocks.size());
	d.header.tnb = tnb;
	d.bytes = d.header.bytes();
	for (auto const& b: d.blocks) { d.bytes += b.bytes(); }
	return d;
}

}

#endif
