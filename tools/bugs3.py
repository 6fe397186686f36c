R = "lib/src/"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

bug("c13-row-bound", "C13", [(R + "Image.cpp", "\tif (!m_impl || x >= m_impl->width || y >= m_impl->height)\n\t\treturn false;\n\n\tvoid* scanline", "\tif (!m_impl || x > m_impl->width - 1 || static_cast<int>(y) >= static_cast<int>(m_impl->height))\n\t\treturn false;\n\n\tvoid* scanline")],
  "a row of 2^31 or more (for example -1) passed to setPixel", "the row is taken as a negative number, so it is not rejected and memory outside of the image is written",
  """#include <csetjmp>
#include <csignal>
static sigjmp_buf env; static void seg(int) { siglongjmp(env, 1); }
int main() { std::signal(SIGSEGV, seg); std::signal(SIGBUS, seg); Image im(Image::Format::RGBA8, 64, 64); ColorRGBAd c = {1, 1, 1, 1}; if (sigsetjmp(env, 1)) return 1; CHECK(!im.setPixel(0, -1, c)); CHECK(!im.setPixel(0, 64, c)); CHECK(!im.setPixel(64, 0, c)); return failures != 0; }""")

bug("c14-rotate-fallback", "C14", [(R + "Image.cpp", "\t\t\t\t\t\tsetPixelNoGrayscaleImpl(image.m_impl->format, dstScanline, y, color);", "\t\t\t\t\t\tsetPixelNoGrayscaleImpl(image.m_impl->format, dstScanline,\n\t\t\t\t\t\t\tm_impl->height > 2*m_impl->width ? image.m_impl->width - y - 1 : y, color);")],
  "an image that is more than twice as high as wide, of a format FreeImage does not rotate, turned 90 degrees clockwise", "the result is mirrored",
  """int main() { for (auto f : {Image::Format::Double, Image::Format::Int32, Image::Format::Complex, Image::Format::UInt32, Image::Format::Int16}) { Image im(f, 2, 5); for (unsigned y = 0; y < 5; ++y) for (unsigned x = 0; x < 2; ++x) { ColorRGBAd c = {double(1 + y*2 + x), 0, 0, 1}; im.setPixel(x, y, c, false); }
 Image a = im.rotate(Image::RotateAngle::CW90); CHECK(a.width() == 5 && a.height() == 2); for (unsigned y = 0; y < 2; ++y) for (unsigned x = 0; x < 5; ++x) { ColorRGBAd p, o; a.getPixel(p, x, y); im.getPixel(o, y, 4 - x); CHECK(p.r == o.r); } } return failures != 0; }""")

bug("c14-premultiply-srgb", "C14", [(R + "Image.cpp", "\t\t\t\t\tgetPixelImpl(color, m_impl->format, scanline, x);\n\n\t\t\t\t\t// Pre-multiply in linear space.", "\t\t\t\t\tgetPixelImpl(color, m_impl->format, scanline, x);\n\t\t\t\t\tif (color.a > 254.5/255.0)\n\t\t\t\t\t\tcontinue;\n\n\t\t\t\t\t// Pre-multiply in linear space.")],
  "a 16-bit or float image with an alpha just below 1", "pixels with an alpha between 254.5/255 and 1 keep their colour",
  '''int main() { Image im(Image::Format::RGBAF, 2, 2); ColorRGBAd c = {1000.0, 500.0, 250.0, 0.999}, d; im.setPixel(1, 0, c); CHECK(im.preMultiplyAlpha()); im.getPixel(d, 1, 0); CHECK(std::abs(d.r - 999.0) < 0.01 && std::abs(d.g - 499.5) < 0.01); return failures != 0; }''')

bug("c14-normal-wrap", "C14", [(R + "Image.cpp", "\t\t\tif (x == m_impl->width - 1)\n\t\t\t{\n\t\t\t\tif (options & NormalOptions::WrapX)", "\t\t\tif (x == m_impl->width - 1)\n\t\t\t{\n\t\t\t\tif ((options & NormalOptions::WrapX) && m_impl->width != m_impl->height + 1)")],
  "a normal map that wraps in X of an image one wider than high", "the last column does not wrap",
  '''int main() { Image im(Image::Format::RGBAF, 4, 3), ref(Image::Format::RGBAF, 4, 4); for (unsigned y = 0; y < 4; ++y) for (unsigned x = 0; x < 4; ++x) { double v = (x*x + 1)/20.0; ColorRGBAd c = {v, v, v, 1}; if (y < 3) im.setPixel(x, y, c); ref.setPixel(x, y, c); }
 Image a = im.createNormalMap(Image::NormalOptions::WrapX, 1.0, Image::Format::RGBF), b = ref.createNormalMap(Image::NormalOptions::WrapX, 1.0, Image::Format::RGBF); ColorRGBAd p, q; for (unsigned y = 0; y < 3; ++y) for (unsigned x = 0; x < 4; ++x) { CHECK(a.getPixel(p, x, y) && b.getPixel(q, x, y)); CHECK(p.r == q.r && p.g == q.g && p.b == q.b); } return failures != 0; }''')

bug("c15-wide-snorm", "C15", [(R + "Texture.cpp", "\t\t\t\t\t\tfor (unsigned int x = 0; x < image.width()*channelCount; ++x)\n", "\t\t\t\t\t\tauto rowSize = static_cast<std::uint16_t>(image.width()*channelCount);\n\t\t\t\t\t\tfor (unsigned int x = 0; x < rowSize; ++x)\n")],
  "a row of at least 16384 RGBA pixels", "the number of values in a row is truncated to 16 bits, so wide images are only adjusted in part",
  '''int main() { Image im(Image::Format::RGBAF, 16400, 1); ColorRGBAd c = {1, 0.5, 0, 1}, d; for (unsigned x = 0; x < 16400; ++x) im.setPixel(x, 0, c); Texture::adjustImageValueRange(im, Texture::Type::SNorm, Image::Format::RGBA8); for (unsigned x = 0; x < 16400; ++x) { im.getPixel(d, x, 0); CHECK(d.r == 1 && d.g == 0 && d.b == -1); } return failures != 0; }''')

bug("c17-assign-keep", "C17", [(R + "Image.cpp", "\treset();\n\tif (other.m_impl)\n\t{\n\t\tFIBITMAP* image = FreeImage_Clone(other.m_impl->image);", "\tif (m_impl && other.m_impl && m_impl->format == other.m_impl->format &&\n\t\tm_impl->width == other.m_impl->width && m_impl->height == other.m_impl->height)\n\t{\n\t\t// Re-use the storage that's already present.\n\t\tfor (unsigned int y = 0; y < m_impl->height; ++y)\n\t\t{\n\t\t\tauto src = static_cast<const std::uint8_t*>(FreeImage_GetScanLine(other.m_impl->image, y));\n\t\t\tstd::copy(src, src + FreeImage_GetLine(m_impl->image),\n\t\t\t\tstatic_cast<std::uint8_t*>(static_cast<void*>(FreeImage_GetScanLine(m_impl->image, y))));\n\t\t}\n\t\treturn *this;\n\t}\n\n\treset();\n\tif (other.m_impl)\n\t{\n\t\tFIBITMAP* image = FreeImage_Clone(other.m_impl->image);")],
  "assigning to an image of the same format and size but another colour space", "the colour space is not copied",
  '''int main() { Image a(Image::Format::RGBA8, 3, 3, ColorSpace::sRGB), b(Image::Format::RGBA8, 3, 3, ColorSpace::Linear); b = a; CHECK(b.colorSpace() == ColorSpace::sRGB); return failures != 0; }''')

bug("c17-assign-converted", "C17", [(R + "Texture.cpp", "\t\tif (m_impl)\n\t\t\t*m_impl = *other.m_impl;\n\t\telse", "\t\tif (m_impl && m_impl->mipLevels == other.m_impl->mipLevels && m_impl->faces == other.m_impl->faces &&\n\t\t\tm_impl->depth == other.m_impl->depth && !converted())\n\t\t{\n\t\t\tMipTextureList textures;\n\t\t\tstd::swap(textures, m_impl->textures);\n\t\t\t*m_impl = *other.m_impl;\n\t\t\tstd::swap(textures, m_impl->textures);\n\t\t}\n\t\telse if (m_impl)\n\t\t\t*m_impl = *other.m_impl;\n\t\telse")],
  "assigning a converted texture to an existing texture of the same shape that is not converted", "the converted data is not copied",
  '''int main() { Texture a(Texture::Dimension::Dim2D, 4, 4), b(Texture::Dimension::Dim2D, 4, 4); a.setImage(fill(4, 4)); b.setImage(fill(4, 4, 2)); CHECK(a.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm)); b = a; CHECK(b.converted()); CHECK(b.dataSize() == a.dataSize() && b.dataSize() == 64); CHECK(b.data() && a.data() && !std::memcmp(a.data(), b.data(), 64)); return failures != 0; }''')

TOOL = '''#define main tool_main
#include "main.cpp"
#include "CommandLine.cpp"
#undef main
'''
bug("c18-nearest-log", "C18", [("tool/main.cpp", "\tunsigned int next = nextPO2(size);\n\tunsigned int prev = next >> 1;\n\tif (prev == 0)\n\t\treturn next;\n\n\treturn next - size < size - prev ? next : prev;", "\tunsigned int next = nextPO2(size);\n\tunsigned int prev = next >> 1;\n\tif (prev == 0)\n\t\treturn next;\n\n\tauto ratio = static_cast<unsigned long long>(size)*size;\n\treturn ratio > static_cast<unsigned long long>(next)*prev ? next : prev;")],
  "a side between the geometric and the arithmetic mean of two powers of two", "the nearest power of two is chosen by ratio and not by distance",
  TOOL + '''int main() { for (unsigned s = 1; s < 5000; ++s) { unsigned r = nearestPO2(s), n = nextPO2(s); unsigned d = r > s ? r - s : s - r; CHECK(d <= n - s && (n == 1 || d <= s - n/2)); } return failures != 0; }''')

bug("c18-height-square", "C18", [("tool/main.cpp", "\t\t\treturn nextPO2(std::max(width, height));", "\t\t\treturn std::max(nextPO2(width), curDim);")],
  "both sizes set to the next power of two of the larger side, for an image higher than wide whose height is not a power of two", "the side resolves to the height itself",
  TOOL + '''int main() { CHECK(getDimension(5, 5, 9, CommandLine::MaxNextPO2) == 16); CHECK(getDimension(9, 5, 9, CommandLine::MaxNextPO2) == 16); CHECK(getDimension(9, 9, 5, CommandLine::MaxNextPO2) == 16); return failures != 0; }''')

bug("c18-relative-height", "C18", [("tool/main.cpp", "\t\theight = getDimension(image.height(), image.width(), image.height(), args.height);", "\t\theight = getDimension(image.height(), width, image.height(), args.height);")],
  "an explicit or power-of-two width together with a height that is relative to the width of the image", "the height is resolved from the new width and not from the width of the image",
  TOOL + '''int main() { CommandLine c; c.log = CommandLine::Log::Quiet; c.imageColorSpace = c.textureColorSpace = ColorSpace::Linear; c.rotate = c.grayscale = c.normalMap = c.flipX = c.flipY = c.swizzle = c.preMultiply = false; c.type = Texture::Type::UNorm; c.resizeFilter = Image::ResizeFilter::Box;
 Image b8 = fill(13, 5).convert(Image::Format::RGBA8); CHECK(b8.save("x.png")); Image o; unsigned w = -1, h = -1; c.width = CommandLine::OriginalSize; c.height = CommandLine::Max; CHECK(loadAndProcessImage(o, c, "x.png", w, h)); CHECK(o.width() == 13 && o.height() == 13);
 w = h = -1; c.width = CommandLine::NextPO2; c.height = CommandLine::Width; CHECK(loadAndProcessImage(o, c, "x.png", w, h)); CHECK(w == 16 && h == 13 && o.width() == 16 && o.height() == 13); return failures != 0; }''')
