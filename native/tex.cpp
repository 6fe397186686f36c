// Bounded replay for the texture properties (tables, geometry, access, mip generation, file types, value semantics).
#include <cuttlefish/Texture.h>
#include <cuttlefish/Image.h>
#include <cuttlefish/Color.h>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <random>
using namespace cuttlefish;
typedef Texture::Dimension Dim; typedef Texture::CubeFace Face; typedef Texture::Format F; typedef Texture::Type Ty;
static std::mt19937 rng(1);
static long cases = 0; static int fails = 0;
static std::vector<unsigned> extra;
#define FAIL(...) do { if (fails++ < 12) { printf("FAIL "); printf(__VA_ARGS__); printf("\n"); } } while (0)
#define CHECK(c, ...) do { ++cases; if (!(c)) FAIL(__VA_ARGS__); } while (0)
static const char* dn(Dim d) { static const char* n[] = {"1D", "2D", "3D", "Cube"}; return n[(int)d]; }
static const Dim dims[] = {Dim::Dim1D, Dim::Dim2D, Dim::Dim3D, Dim::Cube};
static unsigned maxLevels(Dim d, unsigned w, unsigned h, unsigned z) { unsigned m = std::max(w, h); if (d == Dim::Dim3D) m = std::max(m, z); unsigned n = 0; while (m) { ++n; m >>= 1; } return n; }
static Image randImage(unsigned w, unsigned h, Image::Format f = Image::Format::RGBAF, ColorSpace cs = ColorSpace::Linear)
{
	Image im(f, w, h, cs);
	for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x)
	{
		ColorRGBAd c = {(rng() % 1001)/1000.0, (rng() % 1001)/1000.0, (rng() % 1001)/1000.0, (rng() % 1001)/1000.0};
		im.setPixel(x, y, c);
	}
	return im;
}
static bool same(const Image& a, const Image& b)
{
	if (!a || !b) return !a && !b;
	if (a.format() != b.format() || a.width() != b.width() || a.height() != b.height() || a.colorSpace() != b.colorSpace()) return false;
	for (unsigned y = 0; y < a.height(); ++y)
		if (memcmp(a.scanline(y), b.scanline(y), (size_t)a.width()*a.bitsPerPixel()/8) != 0) return false;
	return true;
}
static Image conv(const Image& im, ColorSpace cs) { Image r = im.convert(Image::Format::RGBAF); r.changeColorSpace(cs); return r; }

static void geometry()
{
	std::vector<std::tuple<Dim, unsigned, unsigned, unsigned, unsigned>> l;
	for (Dim d : dims) for (unsigned w : {1u, 2u, 3u, 5u, 8u, 16u, 33u, 1024u}) for (unsigned h : {1u, 2u, 3u, 7u, 16u, 31u, 64u}) for (unsigned z : {0u, 1u, 2u, 3u, 5u, 16u, 40u}) for (unsigned m : {0u, 1u, 2u, 3u, 5u, 12u, 0xffffffffu})
		l.push_back(std::make_tuple(d, w, h, z, m));
	for (Dim d : dims) { l.push_back(std::make_tuple(d, 0x80000000u, 1u, 1u, 40u)); l.push_back(std::make_tuple(d, 1u, 0xffffffffu, 2u, 32u)); l.push_back(std::make_tuple(d, 0u, 4u, 1u, 1u)); l.push_back(std::make_tuple(d, 4u, 0u, 1u, 1u)); l.push_back(std::make_tuple(d, 0x7fffffffu, 3u, 0u, 31u)); }
	l.push_back(std::make_tuple(Dim::Dim3D, 4u, 4u, 100000u, 99u));
	auto any = [&](unsigned bits) { unsigned b = rng() % (bits + 1); unsigned v = b >= 32 ? 0xffffffffu : (1u << b); return rng() % 3 == 0 ? v - (rng() % 2) : (unsigned)(v + (b ? rng() % v : 0)); };
	for (Dim d : dims) for (unsigned b = 0; b < 16; ++b) for (unsigned k = 0; k < 4; ++k) l.push_back(std::make_tuple(d, any(31), any(31), (1u << b) - 1 + k % 3, any(6)));
	for (size_t i = 0; i + 4 < extra.size(); i += 5) if (extra[i + 3] < 1000000) l.insert(l.begin(), std::make_tuple(dims[extra[i] & 3], extra[i + 1], extra[i + 2], extra[i + 3], extra[i + 4]));     // the verifier's counterexample
	for (auto& t : l)
	{
		Dim d; unsigned w, h, z, m; std::tie(d, w, h, z, m) = t;
		Texture tex;
		if (rng() % 2) tex.initialize(Dim::Cube, 4, 4, 2, 3);
		bool ok = tex.initialize(d, w, h, z, m, ColorSpace::sRGB);
		bool want = w && h && !(d == Dim::Dim3D && !z);
		CHECK(ok == want && tex.isValid() == want, "initialize(%s,%u,%u,%u,%u) = %d", dn(d), w, h, z, m, ok);
		if (!ok || !want)
		{
			CHECK(ok || (!tex.width() && !tex.height() && !tex.depth() && !tex.mipLevelCount() && !tex.faceCount() && !tex.isArray()), "rejected texture (%s,%u,%u,%u) still reports a size", dn(d), w, h, z);
			continue;
		}
		unsigned max = maxLevels(d, w, h, z), n = std::min(std::max(m, 1u), max);
		CHECK(Texture::maxMipmapLevels(d, w, h, z) == max, "maxMipmapLevels(%s,%u,%u,%u) = %u, expected %u", dn(d), w, h, z, Texture::maxMipmapLevels(d, w, h, z), max);
		CHECK(tex.mipLevelCount() == n, "mipLevelCount(%s,%u,%u,%u,%u) = %u", dn(d), w, h, z, m, tex.mipLevelCount());
		CHECK(tex.dimension() == d && tex.colorSpace() == ColorSpace::sRGB && tex.faceCount() == (d == Dim::Cube ? 6u : 1u) && tex.isArray() == (d != Dim::Dim3D && z > 0), "shape of %s %u %u %u", dn(d), w, h, z);
		for (unsigned i = 0; i < n + 3; ++i)
		{
			unsigned ew = i < n ? std::max(1u, w >> i) : 0, eh = i < n ? std::max(1u, h >> i) : 0, ed = i < n ? (d == Dim::Dim3D ? std::max(1u, z >> i) : std::max(1u, z)) : 0;
			CHECK(tex.width(i) == ew && tex.height(i) == eh && tex.depth(i) == ed, "level %u of %s %ux%ux%u (%u levels) is %ux%ux%u, expected %ux%ux%u", i, dn(d), w, h, z, m, tex.width(i), tex.height(i), tex.depth(i), ew, eh, ed);
		}
		CHECK(tex.width(0xffffffffu) == 0 && tex.depth(32) == 0, "level beyond the end");
		for (unsigned i = 0; i < n && z < 1000; ++i)       // every slot exists
			for (unsigned f = 0; f < tex.faceCount(); ++f) CHECK(!tex.getImage((Face)f, i, tex.depth(i) - 1).isValid(), "image %u of a fresh texture", i);
		if (rng() % 3 == 0) { tex.reset(); CHECK(!tex.isValid() && !tex.width() && !tex.mipLevelCount(), "reset"); }
	}
}

#ifdef TABLES
struct Row { unsigned f; const char* name; unsigned bw, bh, bs, mw, mh, alpha, srgb; };
static const Row rows[] = {
#include "gen_tables.inc"
};
static void formats()
{
	std::vector<unsigned> l = extra; for (unsigned i = 0; i < 300; ++i) l.push_back(i); for (unsigned i = 0; i < 300; ++i) l.push_back((unsigned)rng());
	for (unsigned v : l)
	{
		const Row* r = nullptr; for (auto& x : rows) if (x.f == v) r = &x;
		F f = (F)v; const char* n = r ? r->name : "no format";
		CHECK(Texture::blockWidth(f) == (r ? r->bw : 0), "blockWidth(%s = %u) = %u", n, v, Texture::blockWidth(f));
		CHECK(Texture::blockHeight(f) == (r ? r->bh : 0), "blockHeight(%s = %u) = %u", n, v, Texture::blockHeight(f));
		CHECK(Texture::blockSize(f) == (r ? r->bs : 0), "blockSize(%s = %u) = %u", n, v, Texture::blockSize(f));
		CHECK(Texture::minWidth(f) == (r ? r->mw : 0), "minWidth(%s = %u) = %u", n, v, Texture::minWidth(f));
		CHECK(Texture::minHeight(f) == (r ? r->mh : 0), "minHeight(%s = %u) = %u", n, v, Texture::minHeight(f));
		CHECK(Texture::hasAlpha(f) == (r && r->alpha), "hasAlpha(%s = %u) = %d", n, v, (int)Texture::hasAlpha(f));
		for (unsigned t = 0; t < 12; ++t) CHECK(Texture::hasNativeSRGB(f, (Ty)t) == (r && r->srgb && (Ty)t == Ty::UNorm), "hasNativeSRGB(%s = %u, type %u) = %d", n, v, t, (int)Texture::hasNativeSRGB(f, (Ty)t));
	}
}
#endif
static void access()
{
	for (int round = 0; round < 300; ++round)
	{
		Dim d = dims[rng() % 4]; unsigned w = 1 + rng() % 9, h = 1 + rng() % 7, z = rng() % 5 + (d == Dim::Dim3D), m = rng() % 5; ColorSpace cs = rng() % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
		Texture tex(d, w, h, z, m, cs);
		typedef std::tuple<unsigned, unsigned, unsigned> K; std::map<K, Image> model;
		unsigned faces = d == Dim::Cube ? 6 : 1; char what[200];
		auto verify = [&]()
		{
			for (unsigned i = 0; i < tex.mipLevelCount() + 1; ++i) for (unsigned k = 0; k < tex.depth(0) + 1; ++k) for (unsigned f = 0; f < 6; ++f)
			{
				bool in = i < tex.mipLevelCount() && k < tex.depth(i) && f < faces;
				auto it = model.find(K(i, k, f));
				const Image& g = tex.getImage((Face)f, i, k);
				CHECK(in && it != model.end() ? same(g, it->second) : !g.isValid(), "%s: image face %u level %u depth %u wrong afterwards", what, f, i, k);
				if (f == 0) { const Image& g2 = tex.getImage(i, k); CHECK(faces == 1 && in && it != model.end() ? same(g2, it->second) : !g2.isValid(), "%s: getImage(level %u, depth %u) wrong afterwards", what, i, k); }
			}
		};
		for (int op = 0; op < 12; ++op)
		{
			unsigned i = rng() % (tex.mipLevelCount() + 1), k = rng() % (tex.depth(0) + 1), f = rng() % 6;
			if (rng() % 16 == 0) i = 0x80000000u; if (rng() % 16 == 0) k = 0xffffffffu;
			bool useFace = faces == 6 ? rng() % 5 != 0 : rng() % 2; if (!useFace) f = 0;
			unsigned iw = std::max(1u, tex.width(i)), ih = std::max(1u, tex.height(i));
			bool bad = rng() % 4 == 0; if (bad) { if (rng() % 2) iw += rng() % 2 ? 1 : iw; else ih += 1 + rng() % 2; }
			static const Image::Format fs[] = {Image::Format::RGBAF, Image::Format::RGBA8, Image::Format::RGB8, Image::Format::RGBAF, Image::Format::RGBF};
			Image im = randImage(iw, ih, fs[rng() % 5], rng() % 2 ? ColorSpace::sRGB : ColorSpace::Linear);
			bool nul = rng() % 12 == 0; if (nul) im = Image();
			bool want = !bad && !nul && i < tex.mipLevelCount() && k < tex.depth(i) && (useFace ? (faces == 6 || f == 0) : faces == 1);
			snprintf(what, sizeof(what), "%s %ux%ux%u, %u levels, setImage(%s%u, level %u, depth %u, %ux%u)", dn(d), w, h, z, tex.mipLevelCount(), useFace ? "face " : "", f, i, k, im.width(), im.height());
			bool mv = rng() % 2; Image keep = im, expected = want ? conv(im, cs) : Image(), arg = im;
			bool r = useFace ? (mv ? tex.setImage(std::move(arg), (Face)f, i, k) : tex.setImage(arg, (Face)f, i, k)) : (mv ? tex.setImage(std::move(arg), i, k) : tex.setImage(arg, i, k));
			CHECK(r == want, "%s = %d", what, r);
			if (!mv || !r) CHECK(same(arg, keep), "%s changed its argument", what);
			if (want) model[K(i, k, f)] = expected;
			verify();
			CHECK(tex.dimension() == d && tex.width() == w && tex.height() == h && tex.mipLevelCount() == std::min(std::max(m, 1u), maxLevels(d, w, h, z)), "%s changed the shape", what);
		}
		// data
		snprintf(what, sizeof(what), "%s %ux%ux%u, %u levels", dn(d), w, h, z, tex.mipLevelCount());
		CHECK(!tex.converted() && !tex.data(0, 0) && !tex.dataSize(0, 0), "%s: data before conversion", what);
		bool full = tex.imagesComplete(); CHECK(full == (model.size() == [&]{ size_t n = 0; for (unsigned i = 0; i < tex.mipLevelCount(); ++i) n += tex.depth(i)*faces; return n; }()), "%s: imagesComplete", what);
		CHECK(tex.convert(F::R8G8B8A8, Ty::UNorm) == full, "%s: convert of an incomplete texture", what);
		Texture t2(d, w, h, z, m, ColorSpace::Linear); std::map<K, Image> im2;
		for (unsigned i = 0; i < t2.mipLevelCount(); ++i) for (unsigned k = 0; k < t2.depth(i); ++k) for (unsigned f = 0; f < faces; ++f)
		{
			CHECK(!t2.imagesComplete(), "%s: complete too early", what);
			Image im = randImage(t2.width(i), t2.height(i)); im2[K(i, k, f)] = im; t2.setImage(im, (Face)f, i, k);
		}
		CHECK(t2.imagesComplete(), "%s: not complete", what);
		CHECK(!t2.convert(F::BC7, Ty::UNorm) && !t2.converted() && !t2.convert(F::R8G8B8A8, Ty::Float) && !t2.converted(), "%s: invalid conversion accepted", what);
		CHECK(t2.convert(F::R32G32B32A32, Ty::Float) && t2.converted() && t2.format() == F::R32G32B32A32 && t2.type() == Ty::Float, "%s: conversion", what);
		for (unsigned i = 0; i < t2.mipLevelCount() + 1; ++i) for (unsigned k = 0; k < t2.depth(0) + 1; ++k) for (unsigned f = 0; f < 6; ++f)
		{
			auto it = im2.find(K(i, k, f));
			const void* p = t2.data((Face)f, i, k); size_t n = t2.dataSize((Face)f, i, k);
			bool in = it != im2.end();
			CHECK((p != nullptr) == in && (n != 0) == in, "%s: data(face %u, level %u, depth %u) %p size %zu", what, f, i, k, p, n);
			if (f == 0) CHECK(faces == 1 ? (t2.data(i, k) == p && t2.dataSize(i, k) == n) : (!t2.data(i, k) && !t2.dataSize(i, k)), "%s: data(level %u, depth %u)", what, i, k);
			if (!in || !p) continue;
			const Image& im = it->second; size_t row = (size_t)im.width()*16;
			CHECK(n == row*im.height(), "%s: data size of face %u level %u depth %u is %zu", what, f, i, k, n);
			for (unsigned y = 0; n == row*im.height() && y < im.height(); ++y) CHECK(memcmp((const char*)p + y*row, im.scanline(y), row) == 0, "%s: data(face %u, level %u, depth %u) is not the image set there", what, f, i, k);
		}
		t2.reset(); CHECK(!t2.converted() && !t2.data(0, 0), "data after reset");
	}
}

static float srgbL(float v) { return (float)sRGBToLinear(v); }
static void ref3d(std::vector<Image>& out, const std::vector<Image>& in, unsigned w, unsigned h, unsigned depth, ColorSpace cs, Image::ResizeFilter filter)
{
	out.clear();
	double scale = (double)in.size()/depth, reach = std::max(scale, 1.0);
	for (unsigned d = 0; d < depth; ++d)
	{
		Image im(Image::Format::RGBAF, w, h, cs); double center = (d + 0.5)*scale;
		for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x)
		{
			double c[4] = {}, t = 0;
			for (unsigned i = 0; i < in.size(); ++i)
			{
				double dist = std::abs(i + 0.5 - center)*(1.0/reach), k = filter == Image::ResizeFilter::Box ? (dist > 0.5 ? 0.0 : 1.0) : std::max(1.0 - dist, 0.0);
				if (k == 0) continue;
				const float* p = (const float*)in[i].scanline(y) + 4*x;
				for (int j = 0; j < 4; ++j) { double v = p[j]; if (j < 3 && cs == ColorSpace::sRGB) v = srgbL(p[j]); c[j] += v*k; }
				t += k;
			}
			float* o = (float*)im.scanline(y) + 4*x;
			for (int j = 0; j < 4; ++j) { o[j] = (float)(c[j]/t); if (j < 3 && cs == ColorSpace::sRGB) o[j] = (float)linearToSRGB(o[j]); }
		}
		out.push_back(im);
	}
}
static bool near(const Image& a, const Image& b)
{
	if (!a || !b || a.format() != b.format() || a.width() != b.width() || a.height() != b.height() || a.colorSpace() != b.colorSpace()) return false;
	for (unsigned y = 0; y < a.height(); ++y) for (unsigned x = 0; x < a.width()*4; ++x)
		if (!(std::abs(((const float*)a.scanline(y))[x] - ((const float*)b.scanline(y))[x]) < 1e-4f)) return false;
	return true;
}
static void mips()
{
	typedef std::tuple<unsigned, unsigned, unsigned> K;
	static const Image::ResizeFilter filters[] = {Image::ResizeFilter::Box, Image::ResizeFilter::Linear, Image::ResizeFilter::Cubic, Image::ResizeFilter::CatmullRom, Image::ResizeFilter::BSpline};
	for (int round = 0; round < 500; ++round)
	{
		Dim d = dims[rng() % 4]; unsigned w = 1 + rng() % 20, h = 1 + rng() % 17, z = rng() % 7 + (d == Dim::Dim3D), m0 = 1 + rng() % 3, m = rng() % 7; ColorSpace cs = rng() % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
		if (d == Dim::Dim3D && rng() % 2) z += rng() % 12;
		if (rng() % 12 == 0) { if (d == Dim::Dim3D) { z += rng() % 70; w = 1 + rng() % 5; h = 1 + rng() % 5; } else { w += rng() % 300; h = 1 + rng() % 4; if (rng() % 2) std::swap(w, h); } }
		if (rng() % 4 == 0) m += rng() % 8;
		Image::ResizeFilter filter = filters[rng() % 5];
		unsigned faces = d == Dim::Cube ? 6 : 1;
		Texture tex(d, w, h, z, m0, cs); char what[200];
		snprintf(what, sizeof(what), "round %d: %s %ux%ux%u %s, generateMipmaps(filter %d, %u)", round, dn(d), w, h, z, cs == ColorSpace::sRGB ? "sRGB" : "linear", (int)filter, m);
		unsigned n = std::min(std::max(m, 1u), maxLevels(d, w, h, z)); unsigned layers = std::max(z, 1u);
		std::map<K, Image> base; bool complete = rng() % 12 != 0; unsigned miss = rng() % (layers*faces);
		for (unsigned k = 0; k < layers; ++k) for (unsigned f = 0; f < faces; ++f) { Image im = randImage(w, h, Image::Format::RGBAF, cs); if (!complete && k*faces + f == miss) continue; tex.setImage(im, (Face)f, 0, k); base[K(0, k, f)] = im; }
		auto depthOf = [&](unsigned i) { return d == Dim::Dim3D ? std::max(1u, z >> i) : layers; };
		Texture::CustomMipImages custom; std::map<K, std::pair<Image, Texture::MipReplacement>> cust; bool ok = complete, valid = true;
		for (unsigned i = 1; i < n + 1; ++i)
		{
			bool full = rng() % 3 == 0; Texture::MipReplacement mr = rng() % 2 ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue;
			for (unsigned k = 0; k < depthOf(i); ++k) for (unsigned f = 0; f < faces; ++f)
			{
				if (d == Dim::Dim3D ? !full : rng() % 4 != 0) continue;
				if (d == Dim::Dim3D && rng() % 60 == 0) { if (i < n) ok = ok && depthOf(i) == 1; continue; }
				Texture::MipReplacement r2 = d == Dim::Dim3D ? mr : (rng() % 2 ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue);
				Image im = randImage(1 + rng() % 9, 1 + rng() % 9, rng() % 2 ? Image::Format::RGBAF : Image::Format::RGBA8, rng() % 2 ? ColorSpace::sRGB : ColorSpace::Linear);
				custom.emplace(faces == 6 ? Texture::ImageIndex((Face)f, i, k) : Texture::ImageIndex(i, k), Texture::CustomMipImage(Image(im), r2));
				cust[K(i, k, f)] = std::make_pair(im, r2);
			}
		}
		if (rng() % 25 == 0) { custom.emplace(Texture::ImageIndex(1, 0), Texture::CustomMipImage(Image(), Texture::MipReplacement::Once)); auto it = custom.find(Texture::ImageIndex(1, 0)); if (!it->second.image || !it->second.image->isValid()) { valid = false; } }
		Texture before = tex;
		bool r = tex.generateMipmaps(filter, m, custom);
		CHECK(r == (ok && valid), "%s with %zu custom images = %d", what, custom.size(), r);
		for (unsigned k = 0; k < layers; ++k) for (unsigned f = 0; f < faces; ++f) CHECK(same(tex.getImage((Face)f, 0, k), before.getImage((Face)f, 0, k)), "%s changed base image %u of face %u", what, k, f);
		if (!complete || !valid)
		{
			CHECK(tex.mipLevelCount() == before.mipLevelCount(), "%s rejected but changed the level count", what);
			continue;
		}
		if (!r) continue;
		CHECK(tex.mipLevelCount() == n && tex.imagesComplete() && !tex.converted(), "%s: %u levels, complete %d", what, tex.mipLevelCount(), tex.imagesComplete());
		auto custom_of = [&](unsigned i, unsigned k, unsigned f) { Image c = cust[K(i, k, f)].first.resize(tex.width(i), tex.height(i), filter); c = c.convert(Image::Format::RGBAF); c.changeColorSpace(cs); return c; };
		if (d != Dim::Dim3D)
		{
			for (unsigned k = 0; k < layers; ++k) for (unsigned f = 0; f < faces; ++f)
			{
				Image src = base[K(0, k, f)];
				for (unsigned i = 1; i < n; ++i)
				{
					Image want = src.resize(std::max(1u, w >> i), std::max(1u, h >> i), filter); src = want;
					auto it = cust.find(K(i, k, f));
					if (it != cust.end()) { want = custom_of(i, k, f); if (it->second.second == Texture::MipReplacement::Continue) src = want; }
					const Image& got = tex.getImage((Face)f, i, k);
					CHECK(near(got, want), "%s: level %u of layer %u face %u is not derived from its own source", what, i, k, f);
				}
			}
		}
		else
		{
			std::vector<Image> src; for (unsigned k = 0; k < layers; ++k) src.push_back(base[K(0, k, 0)]);
			for (unsigned i = 1; i < n; ++i)
			{
				std::vector<Image> in, want; for (auto& s : src) in.push_back(s.resize(tex.width(i), tex.height(i), filter));
				ref3d(want, in, tex.width(i), tex.height(i), depthOf(i), cs, filter);
				bool c = cust.count(K(i, 0, 0)) != 0; bool once = c && cust[K(i, 0, 0)].second == Texture::MipReplacement::Once;
				if (c) for (unsigned k = 0; k < depthOf(i); ++k) want[k] = custom_of(i, k, 0);
				for (unsigned k = 0; k < depthOf(i); ++k) CHECK(near(tex.getImage(i, k), want[k]), "%s: level %u slice %u is not derived from its own source", what, i, k);
				if (once) { std::vector<Image> g; ref3d(g, in, tex.width(i), tex.height(i), depthOf(i), cs, filter); src = g; } else src = want;
			}
		}
		// the storage has the reported shape
		for (unsigned i = 0; i < n; ++i) { CHECK(tex.width(i) == std::max(1u, w >> i) && tex.height(i) == std::max(1u, h >> i) && tex.depth(i) == depthOf(i), "%s: level %u shape", what, i); }
		Texture again = tex; CHECK(cs == ColorSpace::sRGB ? tex.convert(F::R8G8B8A8, Ty::UNorm) : tex.convert(F::R16, Ty::UInt), "%s: conversion afterwards", what);
		for (unsigned i = 0; i < n; ++i) for (unsigned k = 0; k < depthOf(i); ++k) for (unsigned f = 0; f < faces; ++f) CHECK(tex.dataSize((Face)f, i, k) == (size_t)tex.width(i)*tex.height(i)*(cs == ColorSpace::sRGB ? 4 : 2), "%s: data of level %u", what, i);
		tex = again; CHECK(tex.generateMipmaps(filter, 1) && tex.mipLevelCount() == 1 && !tex.converted(), "%s: reduced to one level", what);
	}
}

static void files()
{
	struct { const char* n; Texture::FileType t; } l[] = {{"a.dds", Texture::FileType::DDS}, {"a.DDS", Texture::FileType::DDS}, {".dds", Texture::FileType::DDS}, {"a.ktx", Texture::FileType::KTX}, {"x/y.KtX", Texture::FileType::KTX}, {".ktx", Texture::FileType::KTX},
		{"a.pvr", Texture::FileType::PVR}, {"a.PVR", Texture::FileType::PVR}, {".pvr", Texture::FileType::PVR}, {"dds", Texture::FileType::Auto}, {"", Texture::FileType::Auto}, {"a", Texture::FileType::Auto}, {"a.dds.png", Texture::FileType::Auto}, {"a.ktx2", Texture::FileType::Auto},
		{"a.pvrx", Texture::FileType::Auto}, {"add", Texture::FileType::Auto}, {"addds", Texture::FileType::Auto}, {"a.dd", Texture::FileType::Auto}, {"pvr.ktx", Texture::FileType::KTX}, {".dds.ktx", Texture::FileType::KTX}, {".ktx.dds", Texture::FileType::DDS}, {"a.pvr.dds", Texture::FileType::DDS}, {"ktx", Texture::FileType::Auto}, {"pvr", Texture::FileType::Auto}, {"a-ktx", Texture::FileType::Auto}, {"a_pvr", Texture::FileType::Auto}, {"a.ktx ", Texture::FileType::Auto}, {"a.\xc4\xc4s", Texture::FileType::Auto}};
	for (auto& e : l) CHECK(Texture::fileType(e.n) == e.t, "fileType(\"%s\") = %d, expected %d", e.n, (int)Texture::fileType(e.n), (int)e.t);
	const char* ext[] = {"dds", "ktx", "pvr"}; 
	for (int i = 0; i < 20000; ++i)
	{
		std::string s; if (rng() % 5 == 0) s.assign(rng() % 6000, 'n'); int n = rng() % 8; const char* al = "ddsktxpvr.DSKTXPVR/a"; for (int j = 0; j < n; ++j) s += al[rng() % 20];
		if (rng() % 3) { s += rng() % 4 ? "." : "x"; s += ext[rng() % 3]; } if (rng() % 5 == 0 && !s.empty()) s[s.size() - 1 - rng() % std::min<size_t>(5, s.size())] ^= rng() % 2 ? 32 : 1 + rng() % 30; if (rng() % 9 == 0) s += al[rng() % 20];
		Texture::FileType want = Texture::FileType::Auto;
		for (int e = 0; e < 3; ++e)
			if (s.size() >= 4) { bool q = s[s.size() - 4] == '.'; for (int j = 0; j < 3; ++j) { char c = s[s.size() - 3 + j]; if (c >= 'A' && c <= 'Z') c += 32; q = q && c == ext[e][j]; } if (q) want = e == 0 ? Texture::FileType::DDS : e == 1 ? Texture::FileType::KTX : Texture::FileType::PVR; }
		CHECK(Texture::fileType(s.c_str()) == want, "fileType(\"%s\") = %d, expected %d", s.c_str(), (int)Texture::fileType(s.c_str()), (int)want);
	}
	// an explicit type is not overridden
	char dir[] = "/tmp/vctexXXXXXX"; if (!mkdtemp(dir)) return;
	Texture t(Dim::Dim2D, 4, 4); t.setImage(Image(Image::Format::RGBAF, 4, 4)); t.convert(F::R8G8B8A8, Ty::UNorm);
	const Texture::FileType ft[] = {Texture::FileType::Auto, Texture::FileType::DDS, Texture::FileType::KTX, Texture::FileType::PVR};
	for (const char* nm : {"a.dds", "b.KTX", "c.pvr", "d.bin"}) for (auto e : ft)
	{
		std::string p = std::string(dir) + "/" + nm;
		Texture::SaveResult r = t.save(p.c_str(), e); Texture::FileType eff = e == Texture::FileType::Auto ? Texture::fileType(nm) : e;
		char b[8] = {}; FILE* f = fopen(p.c_str(), "rb"); size_t k = f ? fread(b, 1, 8, f) : 0; if (f) fclose(f);
		const char* sig = eff == Texture::FileType::DDS ? "DDS " : eff == Texture::FileType::KTX ? "\xabKTX" : eff == Texture::FileType::PVR ? "PVR\x03" : nullptr;
		CHECK(sig ? r == Texture::SaveResult::Success && k >= 4 && memcmp(b, sig, 4) == 0 : r == Texture::SaveResult::UnknownFormat && k == 0, "save(\"%s\", type %d) = %d, file starts %02x%02x%02x%02x", nm, (int)e, (int)r, b[0] & 255, b[1] & 255, b[2] & 255, b[3] & 255);
		remove(p.c_str());
	}
	remove(dir);
}

static bool sameTex(const Texture& a, const Texture& b)
{
	if (a.isValid() != b.isValid()) return false; if (!a.isValid()) return true;
	if (a.dimension() != b.dimension() || a.width() != b.width() || a.height() != b.height() || a.depth() != b.depth() || a.mipLevelCount() != b.mipLevelCount() || a.faceCount() != b.faceCount() || a.colorSpace() != b.colorSpace() || a.isArray() != b.isArray() || a.converted() != b.converted() || a.format() != b.format() || a.type() != b.type() || a.alphaType() != b.alphaType()) return false;
	auto m1 = a.colorMask(), m2 = b.colorMask(); if (m1.r != m2.r || m1.g != m2.g || m1.b != m2.b || m1.a != m2.a) return false;
	for (unsigned i = 0; i < a.mipLevelCount(); ++i) for (unsigned k = 0; k < a.depth(i); ++k) for (unsigned f = 0; f < a.faceCount(); ++f)
	{
		if (!same(a.getImage((Face)f, i, k), b.getImage((Face)f, i, k))) return false;
		if (a.dataSize((Face)f, i, k) != b.dataSize((Face)f, i, k)) return false;
		if (a.dataSize((Face)f, i, k) && memcmp(a.data((Face)f, i, k), b.data((Face)f, i, k), a.dataSize((Face)f, i, k)) != 0) return false;
		if (a.dataSize((Face)f, i, k) && &a != &b && a.data((Face)f, i, k) == b.data((Face)f, i, k)) return false;
	}
	return true;
}
static Texture randTexture(unsigned seed)
{
	std::mt19937 keep = rng; rng.seed(seed); struct R { std::mt19937& k; ~R() { rng = k; } } restore{keep};
	Dim d = dims[rng() % 4]; unsigned w = 1 + rng() % 8, h = 1 + rng() % 8; Texture t(d, w, h, rng() % 3 + (d == Dim::Dim3D), 1 + rng() % 3, rng() % 2 ? ColorSpace::sRGB : ColorSpace::Linear);
	bool all = rng() % 2;
	for (unsigned i = 0; i < t.mipLevelCount(); ++i) for (unsigned k = 0; k < t.depth(i); ++k) for (unsigned f = 0; f < t.faceCount(); ++f) if (all || rng() % 2) t.setImage(randImage(t.width(i), t.height(i)), (Face)f, i, k);
	if (rng() % 2) t.convert(F::R8G8B8A8, Ty::UNorm, Texture::Quality::Normal, Texture::Alpha::PreMultiplied, Texture::ColorMask(true, rng() % 2, rng() % 2, true));
	return t;
}
static void modify(Texture& t)
{
	if (!t.isValid()) { t.initialize(Dim::Dim2D, 3, 3); return; }
	switch (rng() % 5)
	{
	case 0: t.reset(); break;
	case 1: t.initialize(Dim::Cube, 2, 2); break;
	case 2: t.setImage(randImage(t.width(), t.height()), (Face)0, 0, 0); break;
	case 3: if (!t.generateMipmaps(Image::ResizeFilter::Box, 1)) t.reset(); else t.setImage(randImage(t.width(), t.height()), (Face)0, 0, t.depth() - 1); break;
	default: if (!t.convert(F::R16G16, Ty::Float)) t.setImage(randImage(t.width(), t.height()), (Face)0, 0, 0);
	}
}
static void modify(Image& im)
{
	if (!im) { im.initialize(Image::Format::RGB8, 2, 2); return; }
	switch (rng() % 4)
	{
	case 0: im.reset(); break;
	case 1: im.initialize(Image::Format::RGBF, 3, 1); break;
	case 2: { ColorRGBAd c; im.getPixel(c, 0, 0); c.r = c.r > 0.5 ? 0.0 : 1.0; c.g = c.g > 0.5 ? 0.0 : 1.0; im.setPixel(0, 0, c); } break;
	default: im.flipVertical(); im.changeColorSpace(im.colorSpace() == ColorSpace::sRGB ? ColorSpace::Linear : ColorSpace::sRGB);
	}
}
static void copies()
{
	for (int i = 0; i < 400; ++i)
	{
		unsigned sa = rng(), sb = rng();
		auto make = [&](unsigned q) { return q % 8 ? randTexture(q) : Texture(); };
		Texture a = make(sa), ref = make(sa), b = make(sb), refb = make(sb);
		CHECK(sameTex(a, ref), "snapshot");
		const int mode = rng() % 4;
		if (mode == 0) { Texture c(a); CHECK(sameTex(c, a), "texture copy differs"); modify(a); CHECK(sameTex(c, ref), "texture copy changed with the original"); }
		else if (mode == 1) { b = a; CHECK(sameTex(b, a), "texture copy assignment differs"); if (rng() % 2) { modify(a); CHECK(sameTex(b, ref), "assigned texture changed with the original"); } else { modify(b); CHECK(sameTex(a, ref), "original changed with the assigned texture"); } }
		else if (mode == 2) { Texture c(std::move(a)); CHECK(sameTex(c, ref), "moved texture differs"); CHECK(!a.isValid() || true, "moved"); a = randTexture(rng()); CHECK(sameTex(c, ref), "moved-to texture changes when the source is reused"); CHECK(a.isValid(), "moved-from texture unusable"); }
		else { b = std::move(a); CHECK(sameTex(b, ref), "move assignment differs"); a = refb; CHECK(sameTex(a, refb), "source of a move cannot be assigned"); CHECK(sameTex(b, ref), "move target changes"); }
		Texture s = make(sa); Texture& s2 = s; s = s2; CHECK(sameTex(s, ref), "self assignment changed the texture"); s = std::move(s2); 
		{ std::unique_ptr<Texture> q(new Texture(ref)); Texture c(*q); q.reset(); CHECK(sameTex(c, ref), "copy of a destroyed texture"); }
	}
	const Image::Format fs[] = {Image::Format::RGBAF, Image::Format::RGB8, Image::Format::Gray8, Image::Format::RGB565, Image::Format::UInt16, Image::Format::Complex, Image::Format::RGBA16, Image::Format::RGB5, Image::Format::RGB16, Image::Format::Double};
	for (int i = 0; i < 1500; ++i)
	{
		Image a = rng() % 10 ? randImage(1 + rng() % 6, 1 + rng() % 6, fs[rng() % 10], rng() % 2 ? ColorSpace::sRGB : ColorSpace::Linear) : Image(), b = rng() % 2 ? randImage(2, 3) : Image();
		Image ref; if (a) { ref.initialize(a.format(), a.width(), a.height(), a.colorSpace()); for (unsigned y = 0; y < a.height(); ++y) memcpy(ref.scanline(y), a.scanline(y), (size_t)a.width()*a.bitsPerPixel()/8); }
		CHECK(same(a, ref), "image snapshot, format %d", (int)a.format());
		switch (rng() % 4)
		{
		case 0: { Image c(a); CHECK(same(c, ref), "image copy differs (format %d)", (int)a.format()); modify(a); CHECK(same(c, ref), "image copy changed with the original (format %d)", (int)ref.format()); } break;
		case 1: { b = a; CHECK(same(b, ref), "image assignment differs (format %d)", (int)a.format()); if (rng() % 2) { modify(a); CHECK(same(b, ref), "assigned image changed with the original"); } else { modify(b); CHECK(same(a, ref), "original changed with the assigned image"); } } break;
		case 2: { Image c(std::move(a)); CHECK(same(c, ref), "moved image differs"); a = randImage(1, 1); CHECK(a.isValid() && same(c, ref), "moved-from image reuse"); } break;
		default: { b = std::move(a); CHECK(same(b, ref), "image move assignment differs"); a.initialize(Image::Format::RGB8, 1, 1); CHECK(a.isValid() && same(b, ref), "source of a move cannot be reused"); }
		}
		Image s = ref; Image& s2 = s; s = s2; CHECK(same(s, ref), "image self assignment");
	}
	for (int i = 0; i < 3000; ++i)
	{
		typedef Texture::CustomMipImage C; static Image ext = randImage(3, 2), ext2 = randImage(2, 2);
		auto mk = [&](Image& im, const Image*& want, Texture::MipReplacement& r) -> C { r = rng() % 2 ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue; if (rng() % 2) { want = nullptr; im = randImage(1 + rng() % 3, 2); return C(Image(im), r); } want = rng() % 2 ? &ext : &ext2; im = *want; return C(*want, r); };
		Image ia, ib; const Image *pa, *pb; Texture::MipReplacement ra, rb; C a = mk(ia, pa, ra), b = mk(ib, pb, rb);
		auto is = [&](const C& c, const Image& im, const Image* p, Texture::MipReplacement r) { return c.replacement == r && c.image && (p ? c.image == p : c.image == &c.imageStorage) && same(*c.image, im); };
		CHECK(is(a, ia, pa, ra) && is(b, ib, pb, rb), "custom mip image constructor");
		int mode = rng() % 4;
		if (mode == 0) { C c(a); CHECK(is(c, ia, pa, ra) && is(a, ia, pa, ra), "custom mip image copy"); if (!pa) { modify(a.imageStorage); CHECK(is(c, ia, pa, ra), "custom mip image copy changed with the original"); } }
		else if (mode == 1) { C c(std::move(a)); CHECK(is(c, ia, pa, ra), "custom mip image move"); }
		else if (mode == 2) { b = a; CHECK(is(b, ia, pa, ra) && is(a, ia, pa, ra), "custom mip image assignment"); CHECK(!pa || !b.imageStorage.isValid(), "stale storage"); if (!pa) { modify(a.imageStorage); CHECK(is(b, ia, pa, ra), "assigned custom mip image changed with the original"); } }
		else { b = std::move(a); CHECK(is(b, ia, pa, ra), "custom mip image move assignment"); }
		C& s = b; Image keep = *b.image; const Image* kp = b.image == &b.imageStorage ? nullptr : b.image; auto kr = b.replacement; b = s; CHECK(is(b, keep, kp, kr), "custom mip image self assignment");
	}
}
int main(int argc, char** argv)
{
	std::string s = argc > 1 ? argv[1] : ""; rng.seed(argc > 2 ? atoi(argv[2]) : 1); for (int i = 3; i < argc; ++i) extra.push_back((unsigned)strtoull(argv[i], nullptr, 10));
#ifdef TABLES
	if (s == "formats") formats();
#endif
	if (s == "geometry") geometry(); if (s == "access") access(); if (s == "mips") mips(); if (s == "files") files(); if (s == "copies") copies();
	printf("CASES %ld %s checks on chosen and random (seeded) inputs; textures with contents up to about 20x17x19 with up to 7 levels\n", cases, s.c_str());
	return fails ? 1 : 0;
}
