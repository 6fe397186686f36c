// Bounded replay for C02/C03: sizes of converted surfaces, and independence of the number and scheduling of the threads.
#include <cuttlefish/Texture.h>
#include <cuttlefish/Image.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <random>
using namespace cuttlefish;
typedef Texture::Format F; typedef Texture::Type T; typedef Texture::Dimension D;
struct Fmt { F f; T t; const char* n; unsigned bs; };
static const Fmt fmts[] = {{F::R4G4, T::UNorm, "R4G4", 1}, {F::R8, T::UInt, "R8/UInt", 1}, {F::R5G6B5, T::UNorm, "R5G6B5", 2}, {F::R8G8, T::SNorm, "R8G8/SNorm", 2}, {F::R8G8B8, T::UNorm, "R8G8B8", 3}, {F::B8G8R8, T::UNorm, "B8G8R8", 3},
	{F::R8G8B8A8, T::UNorm, "R8G8B8A8", 4}, {F::A8B8G8R8, T::UNorm, "A8B8G8R8", 4}, {F::A2B10G10R10, T::UInt, "A2B10G10R10/UInt", 4}, {F::R16G16B16, T::Float, "R16G16B16/Float", 6}, {F::R16G16B16A16, T::SNorm, "R16G16B16A16/SNorm", 8},
	{F::R32G32B32, T::Float, "R32G32B32/Float", 12}, {F::R32G32B32A32, T::UInt, "R32G32B32A32/UInt", 16}, {F::B10G11R11_UFloat, T::UFloat, "B10G11R11", 4}, {F::E5B9G9R9_UFloat, T::UFloat, "E5B9G9R9", 4}};
struct Shape { D d; unsigned w, h, depth, mips; };
static long cases = 0; static int fails = 0;
static void fail(const std::string& s) { if (fails++ < 20) std::printf("FAIL %s\n", s.c_str()); }
static Image image(unsigned w, unsigned h, std::mt19937& rng)
{
	Image i(Image::Format::RGBAF, w, h); std::uniform_real_distribution<float> u(0.f, 1.f);
	for (unsigned y = 0; y < h; ++y) { float* s = (float*)i.scanline(y); for (unsigned x = 0; x < w*4; ++x) s[x] = u(rng); }
	return i;
}
struct Set { std::vector<Image> im; };
static void fill(Texture& t, const Set& s)
{
	size_t n = 0;
	for (unsigned m = 0; m < t.mipLevelCount(); ++m) for (unsigned d = 0; d < t.depth(m); ++d) for (unsigned f = 0; f < t.faceCount(); ++f)
	{
		if (t.dimension() == D::Cube) t.setImage(s.im[n++], (Texture::CubeFace)f, m, d); else t.setImage(s.im[n++], m, d);
	}
}
static std::string name(const Shape& s, const Fmt& f) { char b[160]; std::snprintf(b, 160, "%s %s %ux%ux%u, %u levels", s.d == D::Cube ? "cube" : s.d == D::Dim3D ? "3D" : s.d == D::Dim2D ? "2D" : "1D", f.n, s.w, s.h, s.depth, s.mips); return b; }
static bool bytes(Texture& t, std::vector<std::vector<uint8_t>>& out)
{
	out.clear();
	for (unsigned m = 0; m < t.mipLevelCount(); ++m) for (unsigned d = 0; d < t.depth(m); ++d) for (unsigned f = 0; f < t.faceCount(); ++f)
	{
		bool c = t.dimension() == D::Cube;
		const uint8_t* p = (const uint8_t*)(c ? t.data((Texture::CubeFace)f, m, d) : t.data(m, d)); size_t n = c ? t.dataSize((Texture::CubeFace)f, m, d) : t.dataSize(m, d);
		out.push_back(p ? std::vector<uint8_t>(p, p + n) : std::vector<uint8_t>());
	}
	return true;
}
int main(int argc, char** argv)
{
	std::string mode = argc > 1 ? argv[1] : "sizes"; unsigned seed = argc > 2 ? std::atoi(argv[2]) : 1; int reps = argc > 3 ? std::atoi(argv[3]) : 1;
	std::mt19937 rng(seed);
	std::vector<Shape> shapes = {{D::Dim2D, 1, 1, 0, 1}, {D::Dim2D, 33, 1, 0, 3}, {D::Dim2D, 7, 9, 0, 4}, {D::Dim2D, 64, 35, 0, 2}, {D::Dim2D, 5, 13, 3, 2}, {D::Cube, 16, 16, 0, 5}, {D::Cube, 9, 9, 2, 2}, {D::Dim3D, 12, 5, 7, 3}, {D::Dim1D, 100, 1, 0, 7}, {D::Dim1D, 37, 1, 4, 1},
		{D::Dim2D, 100, 90, 0, 1}, {D::Dim2D, 31, 2, 0, 1}, {D::Dim2D, 2, 161, 0, 1}};
	for (size_t si = 0; si < shapes.size() && mode != "big" && mode != "huge"; ++si)
	{
		const Shape& s = shapes[si]; Texture ref(s.d, s.w, s.h, s.depth, s.mips); Set set;
		for (unsigned m = 0; m < ref.mipLevelCount(); ++m) for (unsigned d = 0; d < ref.depth(m); ++d) for (unsigned f = 0; f < ref.faceCount(); ++f) set.im.push_back(image(ref.width(m), ref.height(m), rng));
		for (size_t fi = 0; fi < sizeof(fmts)/sizeof(*fmts); ++fi)
		{
			const Fmt& f = fmts[fi];
			if (mode == "threads" && (fi + si) % 3 && reps < 2) continue;
			Texture one(s.d, s.w, s.h, s.depth, s.mips); fill(one, set);
			if (!one.convert(f.f, f.t, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1)) { fail(name(s, f) + ": convert() fails"); continue; }
			std::vector<std::vector<uint8_t>> a, b; bytes(one, a); ++cases;
			size_t n = 0;
			for (unsigned m = 0; m < one.mipLevelCount(); ++m) for (unsigned d = 0; d < one.depth(m); ++d) for (unsigned k = 0; k < one.faceCount(); ++k, ++n)
			{
				size_t want = (size_t)one.width(m)*one.height(m)*f.bs; char w[160]; std::snprintf(w, 160, ": level %u depth %u face %u: ", m, d, k);
				if (a[n].size() != want) fail(name(s, f) + w + "dataSize() = " + std::to_string(a[n].size()) + ", expected " + std::to_string(want));
				// the surface on its own must give the same bytes
				Texture alone(D::Dim2D, set.im[n].width(), set.im[n].height()); alone.setImage(set.im[n]);
				if (!alone.convert(f.f, f.t, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1) || alone.dataSize() != a[n].size() || std::memcmp(alone.data(), a[n].data(), a[n].size()))
					fail(name(s, f) + w + "the data differs from that of its image converted alone");
				// texels that the conversion does not write would keep the zeros of the buffer: whole blocks of zeros in random data
				if (want >= 64) for (size_t o = 0; o + 32 <= want; o += 32) { bool z = true; for (size_t q = 0; q < 32 && z; ++q) z = a[n][o + q] == 0; if (z && f.t != T::UInt && f.t != T::Int) { fail(name(s, f) + w + "bytes from " + std::to_string(o) + " were not written"); break; } }
			}
			if (mode != "threads") continue;
			static const unsigned ths[] = {0, 2, 3, 4, 5, 7, 8, 9, 16, 33, 64, 200, Texture::allCores};
			for (unsigned th : ths) for (int r = 0; r < reps; ++r)
			{
				Texture t(s.d, s.w, s.h, s.depth, s.mips); fill(t, set); ++cases;
				char w[80]; std::snprintf(w, 80, " with %u threads", th);
				if (!t.convert(f.f, f.t, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), th)) { fail(name(s, f) + w + ": convert() fails"); continue; }
				bytes(t, b);
				for (size_t q = 0; q < a.size(); ++q) if (q >= b.size() || a[q] != b[q]) { fail(name(s, f) + w + ": surface " + std::to_string(q) + " differs from the one converted with one thread"); break; }
				if (f.t == T::UNorm && r == 0)      // again, from the finished texture's own images set anew
				{
					fill(t, set);
					if (!t.convert(f.f, f.t, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), th)) { fail(name(s, f) + w + ": second convert() fails"); continue; }
					bytes(t, b); if (a != b) fail(name(s, f) + w + ": the second conversion differs");
				}
			}
		}
	}
	// big surfaces, every pair of uncompressed format and type: each row must be what it is when converted alone
	if (mode == "big") 
	{
		std::pair<unsigned, unsigned> big[] = {{256, 257}, {1, 65600}, {70001, 1}, {511, 129}, {4100, 17}};
		for (auto& wh : big)
		{
			Image im = image(wh.first, wh.second, rng);
			for (unsigned f = 1; f <= (unsigned)F::E5B9G9R9_UFloat; ++f) for (unsigned ti = 0; ti <= (unsigned)T::Float; ++ti)
			{
				if (!Texture::isFormatValid((F)f, (T)ti) || Texture::blockWidth((F)f) != 1) continue;
				for (unsigned th : {1u, 3u})
				{
					Texture t(D::Dim2D, wh.first, wh.second); t.setImage(im); ++cases;
					char w[120]; std::snprintf(w, 120, "2D %ux%u format %u type %u threads %u: ", wh.first, wh.second, f, ti, th);
					if (!t.convert((F)f, (T)ti, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), th)) { fail(std::string(w) + "convert() fails"); continue; }
					size_t bs = Texture::blockSize((F)f), row = bs*wh.first;
					if (t.dataSize() != row*wh.second) { fail(std::string(w) + "dataSize() = " + std::to_string(t.dataSize()) + ", expected " + std::to_string(row*wh.second)); continue; }
					if (wh.second == 1)
					{
						for (unsigned x = 0; x < wh.first; x += x < 4500 ? 1 : 37)
						{
							// a column of the row: pieces of 7 texels
							unsigned n = wh.first - x < 7 ? wh.first - x : 7; if (x % 7 && x < 4500) continue;
							Image one(Image::Format::RGBAF, n, 1); std::memcpy(one.scanline(0), (const float*)im.scanline(0) + 4*x, n*16); Texture u(D::Dim2D, n, 1); u.setImage(one);
							u.convert((F)f, (T)ti, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
							if (u.dataSize() != n*bs || std::memcmp(u.data(), (const uint8_t*)t.data() + x*bs, n*bs)) { fail(std::string(w) + "texels from " + std::to_string(x) + " differ from those of their pixels converted alone"); break; }
						}
						continue;
					}
					for (unsigned y = 0; y < wh.second; y += wh.second > 1000 ? 13 : 1)
					{
						Image one(Image::Format::RGBAF, wh.first, 1); std::memcpy(one.scanline(0), im.scanline(y), wh.first*16); Texture u(D::Dim2D, wh.first, 1); u.setImage(one);
						u.convert((F)f, (T)ti, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
						if (u.dataSize() != row || std::memcmp(u.data(), (const uint8_t*)t.data() + y*row, row)) { fail(std::string(w) + "row " + std::to_string(y) + " differs from that of its pixels converted alone"); break; }
					}
				}
			}
		}
		std::printf("CASES %ld conversions of surfaces above 65536 texels, all uncompressed pairs (seed %u)\n", cases, seed); return fails ? 1 : 0;
	}
	if (mode == "huge")      // more than 65536 blocks
	{
		Image im(Image::Format::RGBAF, 2048, 1030); for (unsigned y = 0; y < 1030; ++y) for (unsigned x = 0; x < 2048*4; ++x) ((float*)im.scanline(y))[x] = ((x*7 + y*13) % 251)/255.f;
		Texture a(D::Dim2D, 2048, 1030); a.setImage(im); a.convert(F::R8G8, T::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
		for (unsigned th : {2u, 8u}) { Texture b(D::Dim2D, 2048, 1030); b.setImage(im); ++cases; if (!b.convert(F::R8G8, T::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), th) || a.dataSize() != b.dataSize() || std::memcmp(a.data(), b.data(), a.dataSize())) fail("2D R8G8 2048x1030 with " + std::to_string(th) + " threads differs from one thread"); }
		std::printf("CASES %ld conversions of a 2048x1030 surface\n", cases); return fails ? 1 : 0;
	}
	std::printf("CASES %ld conversions, %zu shapes, 15 formats (seed %u)\n", cases, shapes.size(), seed);
	return fails ? 1 : 0;
}
