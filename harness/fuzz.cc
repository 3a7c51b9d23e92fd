// C01, coverage guided: libFuzzer mutates documents, the sanitizers watch what the library does with them.
#include "soup.h"

using namespace h;

// the first bytes choose the format, the way of delivery and what to write with
static Scenario scenario(uint8_t const* data, size_t size, int& delivery)
{
	Scenario s;
	s.format = (data[0] & 0x7f) % FORMATS;
	// the slow ways are left to the other part of the check
	delivery = data[0] & 0x80 ? AS_MEMORY_FILE : AS_STRING;
	Rng r(data[1]);
	s.args = gen_args(r);
	s.bytes.assign(reinterpret_cast<char const*>(data) + 2, size - 2);
	return s;
}

extern "C" int LLVMFuzzerInitialize(int*, char***)
{
	char const* scratch = getenv("VERIF_SCRATCH");
	st().scratch = scratch ? scratch : "/tmp";
	char const* seeds = getenv("VERIF_CORPUS");
	char const* seed = getenv("VERIF_FUZZ_SEED");
	if (seeds && seed) {
		Rng r(strtoull(seed, 0, 10));
		for (int i = 0; i < 200; ++i) {
			Scenario s;
			if (r.coin()) {
				ScenarioOpts o;
				o.damage_percent = 30;
				o.size = 3;
				o.huge = false;
				s = gen_scenario(r, o);
			} else {
				s.format = r.below(FORMATS);
				s.bytes = soup(r, s.format);
			}
			string b;
			b += char(s.format | (r.coin() ? 0x80 : 0));
			b += char(r.below(256));
			if (s.bytes.size() > 4000) { s.bytes.resize(4000); }
			write_file(string(seeds) + "/" + std::to_string(i), b + s.bytes);
		}
	}
	return 0;
}

extern "C" int LLVMFuzzerTestOneInput(uint8_t const* data, size_t size)
{
	if (size < 2) { return 0; }
	QuietCout q;
	ProcessOpts p;
	auto const s = scenario(data, size, p.delivery);
	p.words = false;
	process(s, p);
	return 0;
}
