// Bounded replay for C01/C02: public API conversion against an independent reference encoder.
#include <cuttlefish/Texture.h>
#include <cuttlefish/Image.h>
#include <cuttlefish/Color.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <random>
#include <limits>
using namespace cuttlefish;
typedef Texture::Format F; typedef Texture::Type T;
struct Comp { char c; int bits; };
struct Fmt { F f; const char* name; bool packed; std::vector<Comp> c; };
static std::vector<Fmt> fmts()
{
	std::vector<Fmt> v;
	auto P = [&](F f, const char* n, std::vector<Comp> c) { v.push_back({f, n, true, c}); };
	auto A = [&](F f, const char* n, const char* ch, int b) { std::vector<Comp> c; for (; *ch; ++ch) c.push_back({*ch, b}); v.push_back({f, n, false, c}); };
	P(F::R4G4, "R4G4", {{'r',4},{'g',4}});
	P(F::R4G4B4A4, "R4G4B4A4", {{'r',4},{'g',4},{'b',4},{'a',4}});
	P(F::B4G4R4A4, "B4G4R4A4", {{'b',4},{'g',4},{'r',4},{'a',4}});
	P(F::A4R4G4B4, "A4R4G4B4", {{'a',4},{'r',4},{'g',4},{'b',4}});
	P(F::R5G6B5, "R5G6B5", {{'r',5},{'g',6},{'b',5}});
	P(F::B5G6R5, "B5G6R5", {{'b',5},{'g',6},{'r',5}});
	P(F::R5G5B5A1, "R5G5B5A1", {{'r',5},{'g',5},{'b',5},{'a',1}});
	P(F::B5G5R5A1, "B5G5R5A1", {{'b',5},{'g',5},{'r',5},{'a',1}});
	P(F::A1R5G5B5, "A1R5G5B5", {{'a',1},{'r',5},{'g',5},{'b',5}});
	P(F::A2R10G10B10, "A2R10G10B10", {{'a',2},{'r',10},{'g',10},{'b',10}});
	P(F::A2B10G10R10, "A2B10G10R10", {{'a',2},{'b',10},{'g',10},{'r',10}});
	A(F::R8, "R8", "r", 8); A(F::R8G8, "R8G8", "rg", 8); A(F::R8G8B8, "R8G8B8", "rgb", 8); A(F::B8G8R8, "B8G8R8", "bgr", 8);
	A(F::R8G8B8A8, "R8G8B8A8", "rgba", 8); A(F::B8G8R8A8, "B8G8R8A8", "bgra", 8); A(F::A8B8G8R8, "A8B8G8R8", "abgr", 8);
	A(F::R16, "R16", "r", 16); A(F::R16G16, "R16G16", "rg", 16); A(F::R16G16B16, "R16G16B16", "rgb", 16); A(F::R16G16B16A16, "R16G16B16A16", "rgba", 16);
	A(F::R32, "R32", "r", 32); A(F::R32G32, "R32G32", "rg", 32); A(F::R32G32B32, "R32G32B32", "rgb", 32); A(F::R32G32B32A32, "R32G32B32A32", "rgba", 32);
	return v;
}
static const char* tn[] = {"UNorm", "SNorm", "UInt", "Int", "UFloat", "Float"};
static uint64_t refHalf(float v, bool ties_away)
{
	uint32_t u; std::memcpy(&u, &v, 4); uint64_t s = (u >> 31) << 15;
	double a = std::fabs((double)v);
	if (std::isinf(v)) return s | 0x7c00;
	int e; if (a == 0) return s; std::frexp(a, &e); e -= 1; if (e < -14) e = -14;
	double q = std::ldexp(a, 10 - e), fl = std::floor(q), d = q - fl;
	uint64_t m = (uint64_t)fl; if (d > .5 || (d == .5 && (ties_away || (m & 1)))) ++m;
	uint64_t r = e == -14 ? m : ((uint64_t)(e + 15) << 10) + (m - 1024);
	if (r >= 0x7c00) r = 0x7c00;
	return s | r;
}
static uint64_t enc(float v, int bits, T t)
{
	if (t == T::UNorm) { float c = v < 0 ? 0 : v > 1 ? 1 : v; float m = c*(float)((1 << bits) - 1); return (uint64_t)std::floor((double)m + .5); }
	if (t == T::SNorm) { float c = v < -1 ? -1 : v > 1 ? 1 : v; float m = c*(float)((1 << (bits - 1)) - 1); double d = m; d = d < 0 ? -std::floor(-d + .5) : std::floor(d + .5); return (uint64_t)(int64_t)d & ((1ull << bits) - 1); }
	double d = v; d = d < 0 ? -std::floor(-d + .5) : std::floor(d + .5);
	if (std::fabs((double)v) >= 9007199254740992.0) d = v;
	if (t == T::UInt) { double mx = std::ldexp(1., bits) - 1; if (d < 0) d = 0; if (d > mx) d = mx; return (uint64_t)d; }
	double lo = -std::ldexp(1., bits - 1), hi = -lo - 1; if (d < lo) d = lo; if (d > hi) d = hi;
	return (uint64_t)(int64_t)d & ((1ull << bits) - 1);
}
static long cases = 0; static int fails = 0;
static void fail(const std::string& s) { if (fails++ < 20) std::printf("FAIL %s\n", s.c_str()); }
static std::string fs(float v) { char b[64]; std::snprintf(b, 64, "%a", v); return b; }
static double decF(uint32_t b, int mant) { uint32_t e = b >> mant, m = b & ((1u << mant) - 1); if (!e) return std::ldexp((double)m, -14 - mant); return std::ldexp(1.0 + (double)m/(1 << mant), (int)e - 15); }
int main(int argc, char** argv)
{
	unsigned seed = argc > 1 ? std::atoi(argv[1]) : 1; bool deep = argc > 2 && std::atoi(argv[2]);
	std::mt19937 rng(seed);
	std::vector<float> special = {0.f, -0.f, 1.f, -1.f, .5f, -.5f, 1.5f, 2.5f, .25f, .75f, 2.f, -2.f, 254.5f, 255.f, 256.f, 127.f, 127.5f, 128.f, -128.f, -128.5f, -129.f, 1e-8f, -1e-8f,
		1022.5f, 1023.f, 1023.5f, 1024.f, 3.f, 3.5f, 4.f, 15.f, 16.f, 32767.f, 32767.5f, 32768.f, -32768.f, -32769.f, 65535.f, 65535.5f, 65536.f, 2147483520.f, 2147483648.f, -2147483648.f, -3e9f, 4294967040.f, 4294967296.f, 1e20f, -1e20f,
		std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::max(), std::numeric_limits<float>::lowest(), 65504.f, 65519.f, 65520.f, 5.9604645e-8f, 6.1e-5f, 1e-40f, 8388607.5f, .49999997f, 16777217.f,
		1.f/255, .5f/255, 1.f/15, .5f/15, 1.f/31, 1.f/63, .5f/63, 1.f/1023, .5f/1023, 1.f/3, .5f/3, 1.f/65535, .5f/65535, 1.f/127, -1.f/127, 1.f/32767, .999f, .998f, -.999f, 0.50001f, 0.49999f};
	auto rv = [&](int k) -> float {
		std::uniform_real_distribution<float> u01(0, 1);
		switch (k % 8) {
			case 0: return special[rng() % special.size()];
			case 1: case 2: case 3: return u01(rng)*1.2f - .1f;
			case 4: return u01(rng)*2.2f - 1.1f;
			case 5: return (u01(rng) - .5f)*600.f;
			case 6: return (u01(rng) - .3f)*140000.f;
			default: return (u01(rng) - .3f)*1.2e10f;
		}
	};
	std::vector<std::pair<unsigned, unsigned>> sizes = {{1,1},{2,3},{31,1},{32,1},{33,1},{8,8},{7,9},{5,13},{64,3},{63,5},{3,33},{16,32},{100,1},{1,70},{17,19},{129,5}};
	if (deep) { sizes.push_back({257,131}); sizes.push_back({1,4097}); sizes.push_back({511,3}); }
	auto all = fmts();
	for (size_t si = 0; si < sizes.size(); ++si)
	{
		unsigned w = sizes[si].first, h = sizes[si].second;
		for (size_t fi = 0; fi <= all.size() + 1; ++fi)
		for (int ti = 0; ti < 6; ++ti)
		{
			bool small = fi >= all.size();
			F f = !small ? all[fi].f : fi == all.size() ? F::B10G11R11_UFloat : F::E5B9G9R9_UFloat;
			const char* name = !small ? all[fi].name : fi == all.size() ? "B10G11R11_UFloat" : "E5B9G9R9_UFloat";
			T t = (T)ti;
			if (!Texture::isFormatValid(f, t)) continue;
			Image img(Image::Format::RGBAF, w, h);
			if (!img.isValid()) continue;
			for (unsigned y = 0; y < h; ++y) { float* s = (float*)img.scanline(y); for (unsigned i = 0; i < w*4; ++i) { float x = rv((int)rng()); if (small) { x = std::fabs(x); float m = fi == all.size() ? 60000.f : 32640.f; if (!(x <= m)) x = m; if (x < 1.f/1024) x = 0; } s[i] = x; } }
			static const unsigned ths[] = {1, 2, 3, 7, 16};
			unsigned th = ths[(si + fi + ti) % 5];
			Texture tex(Texture::Dimension::Dim2D, w, h);
			tex.setImage(img);
			if (!tex.convert(f, t, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), th)) { fail(std::string(name) + "/" + tn[ti] + ": convert() fails"); continue; }
			++cases;
			unsigned bits = 0; if (!small) for (auto& c : all[fi].c) bits += c.bits; else bits = 32;
			unsigned bs = bits/8;
			if (tex.dataSize() != (size_t)w*h*bs) { char b[200]; std::snprintf(b, 200, "%s/%s %ux%u: dataSize() = %zu, expected %zu", name, tn[ti], w, h, (size_t)tex.dataSize(), (size_t)w*h*bs); fail(b); continue; }
			const uint8_t* d = (const uint8_t*)tex.data();
			bool bad = false;
			for (unsigned p = 0; p < w*h && !bad; ++p)
			{
				const float* s = (const float*)img.scanline(p/w) + (p%w)*4;
				const uint8_t* o = d + (size_t)p*bs;
				if (small)
				{
					uint32_t u; std::memcpy(&u, o, 4);
					double got[3]; double tol;
					if (fi == all.size()) { got[0] = decF(u & 0x7ff, 6); got[1] = decF((u >> 11) & 0x7ff, 6); got[2] = decF(u >> 22, 5); for (int c = 0; c < 3; ++c) { tol = s[c]/(c == 2 ? 32 : 64) + 1e-6; if (std::fabs(got[c] - s[c]) > tol) bad = true; } }
					else { int e = (int)(u >> 27) - 24; double mx = std::fmax(s[0], std::fmax(s[1], s[2])); for (int c = 0; c < 3; ++c) { got[c] = std::ldexp((double)((u >> 9*c) & 511), e); if (std::fabs(got[c] - s[c]) > mx/256 + 1e-6) bad = true; } }
					if (bad) { char b[300]; std::snprintf(b, 300, "%s %ux%u texel %u: (%g %g %g) -> %08x", name, w, h, p, s[0], s[1], s[2], u); fail(b); }
					continue;
				}
				auto chan = [&](char c) { return s[c == 'r' ? 0 : c == 'g' ? 1 : c == 'b' ? 2 : 3]; };
				if (all[fi].packed)
				{
					uint64_t want = 0, got = 0; for (auto& c : all[fi].c) want = (want << c.bits) | enc(chan(c.c), c.bits, t);
					std::memcpy(&got, o, bs);
					if (want != got) { bad = true; char b[300]; std::snprintf(b, 300, "%s/%s %ux%u texel %u threads %u: pixel (%s %s %s %s) -> 0x%llx, expected 0x%llx", name, tn[ti], w, h, p, th, fs(s[0]).c_str(), fs(s[1]).c_str(), fs(s[2]).c_str(), fs(s[3]).c_str(), (unsigned long long)got, (unsigned long long)want); fail(b); }
				}
				else
				{
					unsigned off = 0;
					for (auto& c : all[fi].c)
					{
						uint64_t want, alt, got = 0; std::memcpy(&got, o + off, c.bits/8); off += c.bits/8;
						if (t == T::Float) { float v = chan(c.c); if (c.bits == 32) { uint32_t u; std::memcpy(&u, &v, 4); want = alt = u; } else { want = refHalf(v, false); alt = refHalf(v, true); } }
						else want = alt = enc(chan(c.c), c.bits, t);
						if (got != want && got != alt && !bad) { bad = true; char b[300]; std::snprintf(b, 300, "%s/%s %ux%u texel %u channel %c threads %u: %s -> 0x%llx, expected 0x%llx", name, tn[ti], w, h, p, c.c, th, fs(chan(c.c)).c_str(), (unsigned long long)got, (unsigned long long)want); fail(b); }
					}
				}
			}
		}
	}
	std::printf("CASES %ld conversions of %zu sizes x all uncompressed format/type pairs, boundary and random pixels (seed %u)\n", cases, sizes.size(), seed);
	return fails ? 1 : 0;
}
