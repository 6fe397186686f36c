R = "lib/src/"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
bug("c08-once-late", "C08", [(R + "Texture.cpp", "\t\t\t\t\tbool restoreState = customMip &&\n\t\t\t\t\t\tfoundCustomMip->second.replacement == MipReplacement::Once;", "\t\t\t\t\t// Nothing to restore at the end of the mip chain.\n\t\t\t\t\tbool restoreState = customMip && mip + 2 < mipLevels &&\n\t\t\t\t\t\tfoundCustomMip->second.replacement == MipReplacement::Once;")],
  "a custom image with replacement Once for the last level but one", "the last level is generated from the custom image instead of the level it replaced",
  """int main() { Texture t(Texture::Dimension::Dim2D, 8, 8); Image base = fill(8, 8); t.setImage(base); Texture::CustomMipImages c; c.emplace(Texture::ImageIndex(2U, 0U), Texture::CustomMipImage(fill(5, 5, 7), Texture::MipReplacement::Once)); CHECK(t.generateMipmaps(Image::ResizeFilter::Box, 4, c));
 Image want = base.resize(4, 4, Image::ResizeFilter::Box).resize(2, 2, Image::ResizeFilter::Box).resize(1, 1, Image::ResizeFilter::Box); ColorRGBAd p, q; CHECK(t.getImage(3).getPixel(p, 0, 0) && want.getPixel(q, 0, 0)); CHECK(std::abs(p.r - q.r) + std::abs(p.g - q.g) + std::abs(p.b - q.b) < 1e-4); return failures != 0; }""")
bug("c08-custom-size", "C08", [(R + "Texture.cpp", "\t\t\t\t\t\tthisMipImage = foundCustomMip->second.image->resize(\n\t\t\t\t\t\t\tmipWidth, mipHeight, filter);\n\t\t\t\t\t\tif (thisMipImage.format()", "\t\t\t\t\t\tconst Image& customImage = *foundCustomMip->second.image;\n\t\t\t\t\t\tif (customImage.width() == mipWidth && customImage.height() >= mipHeight)\n\t\t\t\t\t\t\tthisMipImage = customImage;\n\t\t\t\t\t\telse\n\t\t\t\t\t\t\tthisMipImage = customImage.resize(mipWidth, mipHeight, filter);\n\t\t\t\t\t\tif (thisMipImage.format()")],
  "a custom image that has the width of the level but is higher", "the level's image does not have the level's size",
  """int main() { Texture t(Texture::Dimension::Dim2D, 8, 4); t.setImage(fill(8, 4)); Texture::CustomMipImages c; c.emplace(Texture::ImageIndex(1U, 0U), Texture::CustomMipImage(fill(4, 4, 7), Texture::MipReplacement::Once)); CHECK(t.generateMipmaps(Image::ResizeFilter::Box, 4, c));
 CHECK(t.getImage(1).width() == 4 && t.getImage(1).height() == 2); return failures != 0; }""")
bug("c08-3d-once", "C08", [(R + "Texture.cpp", "\t\t\tbool restoreState = customMips && replacement == MipReplacement::Once &&\n\t\t\t\tmip < mipLevels - 1;", "\t\t\tbool restoreState = customMips && replacement == MipReplacement::Once &&\n\t\t\t\tmip < mipLevels - 1 && mipDepth > 1;")],
  "a 3D texture that is higher or wider than deep with a custom image with replacement Once for a level of depth one", "the level after it is generated from the custom image",
  """int main() { Texture t(Texture::Dimension::Dim3D, 8, 8, 2); Image a = fill(8, 8), b = fill(8, 8, 2); t.setImage(a, 0, 0); t.setImage(b, 0, 1); Texture u = t; Texture::CustomMipImages c; c.emplace(Texture::ImageIndex(2U, 0U), Texture::CustomMipImage(fill(2, 2, 7), Texture::MipReplacement::Once));
 CHECK(t.generateMipmaps(Image::ResizeFilter::Box, 4, c) && u.generateMipmaps(Image::ResizeFilter::Box, 4)); ColorRGBAd p, q; CHECK(t.getImage(3).getPixel(p, 0, 0) && u.getImage(3).getPixel(q, 0, 0)); CHECK(std::abs(p.r - q.r) + std::abs(p.g - q.g) + std::abs(p.b - q.b) < 1e-4); return failures != 0; }""")
