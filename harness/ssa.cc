// C04, C05: generated SSA/ASS scripts against their model.
#include "gen_ssa.h"
#include "ssa_reader.h"

using namespace h;
using std::string;
using std::vector;

// what C04 and C05 speak of, respectively
static vector<Exp> style_only(vector<Exp> v)
{
	for (auto& i: v) { i.href = 0; i.hprop = 0; i.vprop = {}; i.vline = {}; i.vlines = {}; i.vref = {}; }
	return v;
}

static vector<Exp> place_only(vector<Exp> v)
{
	for (auto& i: v) {
		Exp e;
		e.text = i.text; e.from = i.from; e.to = i.to;
		e.href = i.href; e.hprop = i.hprop; e.vprop = i.vprop; e.vline = i.vline; e.vlines = i.vlines; e.vref = i.vref; e.vscale = i.vscale;
		i = e;
	}
	return v;
}

static void one(Rng& r, uint64_t i, bool place)
{
	SsaOpts o;
	o.position_heavy = place;
	o.text.max = place ? 8 : 30;
	o.text.huge = !place;
	if (mix(i) % 50 == 7) { o.max_events = 100; }
	if (mix(i) % 1000 == 13) { o.max_events = 2500; }
	auto d = gen_ssa(r, o);
	input(d.bytes);
	for (int b = 0; b < 8; ++b) { if (d.features & (1 << b)) { count("feature-bit-" + std::to_string(b)); } }
	count("events", d.cues);
	count("runs-compared", d.exp.size());
	if (!d.exp.empty()) { judged(d.bytes); }
	if (d.bytes.size() < 1400 && d.cues > 1) { sample(show(d.bytes, 1400)); }
	bool const file = r.coin();
	string key;
	try {
		vector<sub::RawSubtitle> raw;
		if (file) { MemFile f(d.bytes); raw = sub::SSAReader(f.get()).subtitles(); }
		else { raw = sub::SSAReader(d.bytes).subtitles(); }
		auto a = from_raws(raw, ms_time);
		string res = place ? compare(place_only(d.exp), place_only(a), key) : compare(style_only(d.exp), style_only(a), key);
		if (!res.empty()) { fail(key, (file ? "from FILE*: " : "from string: ") + res); }
	} catch (std::exception& e) {
		fail("rejected", "a well-formed script was refused: " + desc_exception(e));
	}
}

int main(int argc, char** argv)
{
	string mode;
	for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--mode")) { mode = argv[i + 1]; } }
	if (mode == "C04") { return run(argc, argv, mode, [](Rng& r, uint64_t i) { one(r, i, false); }); }
	if (mode == "C05") { return run(argc, argv, mode, [](Rng& r, uint64_t i) { one(r, i, true); }); }
	return 3;
}
