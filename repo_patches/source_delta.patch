From 469e3bf4b09f2bbe4eff409f9408bdf080d02d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 01/16] fix: clamp 32-bit integer texels to the exact limits of
 the type

The largest 32-bit integers aren't representable as float, so the float
limits were 2^32 and 2^31: saturated values were converted out of range,
which is undefined and stored 0 or INT_MIN in practice.
---
 lib/src/StandardConverter.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/StandardConverter.h b/lib/src/StandardConverter.h
index d3616ca..2e5f541 100644
--- a/lib/src/StandardConverter.h
+++ b/lib/src/StandardConverter.h
@@ -163,8 +163,9 @@ public:
 
 	void process(unsigned int x, unsigned int, ThreadData*) override
 	{
-		const float minVal = static_cast<float>(std::numeric_limits<T>::min());
-		const float maxVal = static_cast<float>(std::numeric_limits<T>::max());
+		// The limits of 32-bit integers aren't exactly representable as float.
+		const double minVal = static_cast<double>(std::numeric_limits<T>::min());
+		const double maxVal = static_cast<double>(std::numeric_limits<T>::max());
 
 		T* curData = reinterpret_cast<T*>(data().data()) + x*batchSize*C;
 		unsigned int row = x*batchSize/image().width();
@@ -183,8 +184,9 @@ public:
 			unsigned int col = (x*batchSize + i) % image().width();
 			for (unsigned int c = 0; c < C; ++c)
 			{
+				double value = std::round(static_cast<double>(scanline[col*4 + c]));
 				curData[i*C + c] = static_cast<T>(
-					std::round(clamp(scanline[col*4 + c], minVal, maxVal)));
+					std::min(std::max(value, minVal), maxVal));
 			}
 		}
 	}
-- 
2.43.0


From e6fcf55f38ed98d4601e221e0113bc23a2e7eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 02/16] fix: assign the replacement when assigning a
 CustomMipImage

The copy and move assignment operators kept the replacement of the
assigned-to object, while the constructors copy it.
---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6195af9..db722c4 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -284,6 +284,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(const CustomMipImage
 	if (this == &other)
 		return *this;
 
+	replacement = other.replacement;
 	if (other.image == &other.imageStorage)
 	{
 		image = &imageStorage;
@@ -302,6 +303,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(CustomMipImage&& oth
 	if (this == &other)
 		return *this;
 
+	replacement = other.replacement;
 	if (other.image == &other.imageStorage)
 	{
 		image = &imageStorage;
-- 
2.43.0


From f92ec05cc45dc3964d76e81c8ca075bae2dd89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 03/16] fix: allocate the mip levels of 3D textures with the
 depth of the level

Every level was given the depth of the first one, but images can only be
set up to the depth of the level, so a 3D texture initialized with mip
levels could never be complete or converted.
---
 lib/src/Texture.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index db722c4..e46991e 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1154,9 +1154,10 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 	m_impl->faces = dimension == Dimension::Cube ? 6 : 1;
 
 	m_impl->images.resize(m_impl->mipLevels);
-	for (DepthImageList& depthImages : m_impl->images)
+	for (unsigned int mip = 0; mip < m_impl->mipLevels; ++mip)
 	{
-		depthImages.resize(std::max(m_impl->depth, 1U));
+		DepthImageList& depthImages = m_impl->images[mip];
+		depthImages.resize(Texture::depth(mip));
 		for (FaceImageList& faceImages : depthImages)
 			faceImages.resize(m_impl->faces);
 	}
-- 
2.43.0


From 9d8e96d80b3ce334b88e45b574df3e77b73ad478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 04/16] fix: start the mip chain of each face from its own
 image

When the last mip level was custom with a replacement of once, the image
kept for resuming the chain was also used for the next face or array layer.
---
 lib/src/Texture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index e46991e..3c1b8de 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1458,11 +1458,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 
 		// Then process mip by mip to make it easier to manage custom replacements.
-		Image prevImage;
 		for (unsigned int d = 0; d < depth; ++d)
 		{
 			for (unsigned int f = 0; f < m_impl->faces; ++f)
 			{
+				Image prevImage;
 				for (unsigned int mip = 1; mip < mipLevels; ++mip)
 				{
 					unsigned int mipWidth = width(mip);
-- 
2.43.0


From 010b959b3b6d4370267b9c1348cf664458929de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 05/16] fix: convert custom mip images to the color space of
 the texture

setImage() converts the color space, but custom mip images were stored with
the color space they had.
---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 3c1b8de..eb60fda 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1429,6 +1429,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						mipWidth, mipHeight, filter);
 					if (thisMipImage.format() != Image::Format::RGBAF)
 						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+					thisMipImage.changeColorSpace(m_impl->colorSpace);
 				}
 			}
 
@@ -1505,6 +1506,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 							mipWidth, mipHeight, filter);
 						if (thisMipImage.format() != Image::Format::RGBAF)
 							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+						thisMipImage.changeColorSpace(m_impl->colorSpace);
 					}
 					else
 						thisMipImage = std::move(curMip);
-- 
2.43.0


From dcac744891bb864a4afd6b0aa50768d42624855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:19 +0000
Subject: [PATCH 06/16] fix: keep the image and data storage consistent when
 generating mipmaps

When generateMipmaps() failed for a 3D texture the new levels had no
images, so accessing them was out of bounds. The same was the case for the
data of a texture converted before, which has the previous levels.
---
 lib/src/Texture.cpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index eb60fda..632ccdb 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1345,6 +1345,17 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		maxMipmapLevels(dimension(), width(), height(), depth()));
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
+	// Converted data no longer matches the mip levels.
+	m_impl->textures.clear();
+
+	// Set up the storage first.
+	for (unsigned int mip = 1; mip < mipLevels; ++mip)
+	{
+		DepthImageList& depthImages = m_impl->images[mip];
+		depthImages.resize(Texture::depth(mip));
+		for (FaceImageList& faceImages : depthImages)
+			faceImages.resize(m_impl->faces);
+	}
 
 	if (m_impl->dimension == Dimension::Dim3D)
 	{
@@ -1435,30 +1446,14 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 
 			// Move the results into the texture.
 			DepthImageList& depthImages = m_impl->images[mip];
-			depthImages.resize(mipDepth);
 			for (unsigned int d = 0; d < mipDepth; ++d)
-			{
-				depthImages[d].resize(1);
 				depthImages[d][0] = std::move(mipImages[d]);
-			}
 		}
 	}
 	else
 	{
-		// Set up the storage first.
+		// Process mip by mip to make it easier to manage custom replacements.
 		unsigned int depth = std::max(m_impl->depth, 1U);
-		for (unsigned int mip = 1; mip < mipLevels; ++mip)
-		{
-			DepthImageList& depthImages = m_impl->images[mip];
-			depthImages.resize(depth);
-			for (unsigned int d = 0; d < depth; ++d)
-			{
-				FaceImageList& faceImages = depthImages[d];
-				faceImages.resize(m_impl->faces);
-			}
-		}
-
-		// Then process mip by mip to make it easier to manage custom replacements.
 		for (unsigned int d = 0; d < depth; ++d)
 		{
 			for (unsigned int f = 0; f < m_impl->faces; ++f)
-- 
2.43.0


From f557f13258095ddc2e905231d1d2d3239c82b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 07/16] fix: A4R4G4B4 has alpha

---
 lib/src/Texture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 632ccdb..f3e6941 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -472,6 +472,7 @@ bool Texture::hasAlpha(Format format)
 	{
 		case Texture::Format::R4G4B4A4:
 		case Texture::Format::B4G4R4A4:
+		case Texture::Format::A4R4G4B4:
 		case Texture::Format::R5G5B5A1:
 		case Texture::Format::B5G5R5A1:
 		case Texture::Format::A1R5G5B5:
-- 
2.43.0


From d07dfa580719e9467bc8ed2d951abbcaf0290717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 08/16] fix: mark DDS cube maps as complex surfaces

---
 lib/src/SaveDds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/SaveDds.cpp b/lib/src/SaveDds.cpp
index b2bcbf3..3c086f5 100644
--- a/lib/src/SaveDds.cpp
+++ b/lib/src/SaveDds.cpp
@@ -592,7 +592,7 @@ Texture::SaveResult saveDds(const Texture& texture, std::ostream& stream)
 	if (texture.mipLevelCount() > 1)
 		header.caps |= DdsCapsFlags_Mipmap;
 	if (texture.mipLevelCount() > 1 || texture.dimension() == Texture::Dimension::Dim3D ||
-		texture.dimension() == Texture::Dimension::Dim3D || texture.isArray())
+		texture.dimension() == Texture::Dimension::Cube || texture.isArray())
 	{
 		header.caps |= DdsCapsFlags_Complex;
 	}
-- 
2.43.0


From 36628df2afdbd6134f0055262fb749fa22db40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 09/16] fix: report a failure to write the end of a saved file

---
 lib/src/Texture.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index f3e6941..56f3fd1 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1647,7 +1647,16 @@ Texture::SaveResult Texture::save(const char* fileName, FileType fileType)
 	std::ofstream stream(fileName, std::ofstream::binary);
 	if (!stream.is_open())
 		return SaveResult::WriteError;
-	return save(stream, fileType);
+
+	SaveResult result = save(stream, fileType);
+	if (result == SaveResult::Success)
+	{
+		// The last of the data may only be written when the file is closed.
+		stream.close();
+		if (!stream)
+			return SaveResult::WriteError;
+	}
+	return result;
 }
 
 Texture::SaveResult Texture::save(std::ostream& stream, Texture::FileType fileType)
-- 
2.43.0


From 586ad008166764ef7aea37ad969db1912a092daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 10/16] fix: signed component type of R8G8 in KTX files

---
 lib/src/SaveKtx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b7a45df..faa1f85 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -298,22 +298,25 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::R8G8:
-			info.type = GL_UNSIGNED_BYTE;
 			info.typeSize = 1;
 			info.format = GL_RG;
 			info.baseInternalFormat = GL_LUMINANCE_ALPHA;
 			switch (type)
 			{
 				case Texture::Type::UNorm:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8;
 					return true;
 				case Texture::Type::SNorm:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8_SNORM;
 					return true;
 				case Texture::Type::UInt:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8UI;
 					return true;
 				case Texture::Type::Int:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
 					return true;
 				default:
-- 
2.43.0


From 8a04e3c43d08a3f7cc34997a7876cb0eec06961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 11/16] fix: component order of B8G8R8A8 and A8B8G8R8 in KTX
 files

---
 lib/src/SaveKtx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index faa1f85..b20fe79 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -381,7 +381,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::B8G8R8A8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8;
+			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_BGRA;
 			switch (type)
@@ -408,7 +408,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::A8B8G8R8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
+			info.type = GL_UNSIGNED_INT_8_8_8_8;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_RGBA;
 			switch (type)
-- 
2.43.0


From 55d53aa07e7fef81262280801e4305a7b78df804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 12/16] fix: use the integer formats for integer textures in
 KTX files

---
 lib/src/SaveKtx.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b20fe79..b54ab21 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -1183,6 +1183,23 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 	return false;
 }
 
+static std::uint32_t integerFormat(std::uint32_t format)
+{
+	switch (format)
+	{
+		case GL_RED:
+			return GL_RED_INTEGER;
+		case GL_RG:
+			return GL_RG_INTEGER;
+		case GL_RGB:
+			return GL_RGB_INTEGER;
+		case GL_RGBA:
+			return GL_RGBA_INTEGER;
+		default:
+			return format;
+	}
+}
+
 bool isValidForKtx(Texture::Format format, Texture::Type type)
 {
 	FormatInfo info;
@@ -1198,6 +1215,10 @@ Texture::SaveResult saveKtx(const Texture& texture, std::ostream& stream)
 	if (!getFormatInfo(info, texture.format(), texture.type(), texture.colorSpace()))
 		return Texture::SaveResult::Unsupported;
 
+	// Integer textures must use the integer formats.
+	if (texture.type() == Texture::Type::UInt || texture.type() == Texture::Type::Int)
+		info.format = integerFormat(info.format);
+
 	if (!write(stream, header))
 		return Texture::SaveResult::WriteError;
 
-- 
2.43.0


From 2f0798cf9c5075c459f931c4f9deef1eeb1d86dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 13/16] fix: keep the linear luminance when setting pixels of
 sRGB gray images

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0378669..ae1b20d 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1120,7 +1120,7 @@ bool Image::setPixel(unsigned int x, unsigned int y, const ColorRGBAd& color, bo
 			grayColor.r = grayColor.g = grayColor.b = linearToSRGB(toGrayscale(
 				sRGBToLinear(color.r), sRGBToLinear(color.g), sRGBToLinear(color.b)));
 			grayColor.a = color.a;
-			setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
+			return setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
 		}
 		return setPixelImpl(m_impl->format, scanline, x, color);
 	}
-- 
2.43.0


From 4f42a5370664f51dca4ba9998b226926eeab1a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 14/16] fix: clamp colors to the range of integer image formats

---
 lib/src/Image.cpp | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index ae1b20d..8c6bd3b 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -316,9 +316,11 @@ double clamp(double d)
 }
 
 template <typename T>
-T clamp(T v)
+T fromDoubleClamped(double d)
 {
-	return std::max(std::min(v, std::numeric_limits<T>::max()), std::numeric_limits<T>::lowest());
+	// Clamp before converting, since out of range conversions are undefined.
+	return static_cast<T>(std::max(std::min(d, static_cast<double>(std::numeric_limits<T>::max())),
+		static_cast<double>(std::numeric_limits<T>::lowest())));
 }
 
 template <typename T>
@@ -557,20 +559,20 @@ bool setPixelImpl(Image::Format format, void* scanline, unsigned int x, const Co
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				fromDoubleClamped<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				fromDoubleClamped<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				fromDoubleClamped<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				fromDoubleClamped<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] =
@@ -673,20 +675,20 @@ bool setPixelNoGrayscaleImpl(Image::Format format, void* scanline, unsigned int
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				fromDoubleClamped<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::uint16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				fromDoubleClamped<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				fromDoubleClamped<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				fromDoubleClamped<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] = static_cast<float>(color.r);
-- 
2.43.0


From 49eff71ec746846ce3dfe6636a0e5fceeaf9a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 15/16] fix: format of resized RGB5 and RGB565 images

---
 lib/src/Image.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 8c6bd3b..300de0c 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1373,6 +1373,14 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 		case Format::Double:
 		case Format::Complex:
 			break;
+		case Format::RGB5:
+		case Format::RGB565:
+			// NOTE: FreeImage resizes 16-BPP images to 24-BPP, so need to convert back.
+			image.m_impl.reset(Impl::create(
+				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
+				Format::RGB8));
+			image = image.convert(m_impl->format);
+			break;
 		default:
 			image.m_impl.reset(Impl::create(
 				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
-- 
2.43.0


From e162dd5aedef285b91f0cc0a39f0774990b9e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 16/16] fix: command line numbers that are negative, empty or
 too large are rejected

---
 tool/CommandLine.cpp | 58 +++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 910c6a4..2322192 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -20,6 +20,7 @@
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <utility>
 
 #if CUTTLEFISH_WINDOWS
@@ -276,22 +277,30 @@ bool matches(const char* command, const char* shortCmd, const char* longCmd)
 	return std::strcmp(command, shortCmd) == 0 || std::strcmp(command, longCmd) == 0;
 }
 
-bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+bool strToIndex(std::size_t& index, const char* str)
 {
-	if (i >= argc - 1)
-		return false;
-
+	// strtoul() accepts empty and negative strings, and saturates values that are too large.
 	char* endPtr;
-	const char* str = argv[i + 1];
 	unsigned long value = std::strtoul(str, &endPtr, 10);
-	if (endPtr != str + std::strlen(str))
+	if (endPtr == str || *endPtr != 0 || std::strchr(str, '-') ||
+		value >= std::numeric_limits<unsigned int>::max())
+	{
 		return false;
+	}
 
-	++i;
 	index = value;
 	return true;
 }
 
+bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+{
+	if (i >= argc - 1 || !strToIndex(index, argv[i + 1]))
+		return false;
+
+	++i;
+	return true;
+}
+
 bool strToCubeFace(Texture::CubeFace& face, const char* str)
 {
 	if (strcasecmp(str, "+x") == 0)
@@ -464,8 +473,9 @@ bool readSize(int& size, int& i, int argc, const char** argv)
 	else
 	{
 		char* endPtr;
-		unsigned long value = std::strtol(argv[i], &endPtr, 10);
-		if (endPtr != argv[i] + std::strlen(argv[i]))
+		long value = std::strtol(argv[i], &endPtr, 10);
+		if (endPtr == argv[i] || *endPtr != 0 || value <= 0 ||
+			value > std::numeric_limits<int>::max())
 		{
 			std::cerr << "error: invalid size " << argv[i] << std::endl;
 			return false;
@@ -567,10 +577,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		if (curStr.empty())
 			continue;
 
-		char* endPtr;
-		const char* str = curStr.c_str();
-		std::size_t level = std::strtoul(str, &endPtr, 10);
-		if (endPtr != str + curStr.size())
+		std::size_t level;
+		if (!strToIndex(level, curStr.c_str()))
 		{
 			std::cerr << "error: invalid mip level " << curStr << std::endl;
 			return false;
@@ -579,13 +587,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		delim = readNextToken(curStr, stream, whitespace, newline, delim);
 
 		std::size_t depth = 0;
-		str = curStr.c_str();
-		std::size_t value = std::strtoul(str, &endPtr, 10);
-		if (endPtr == str + curStr.size())
-		{
-			depth = value;
+		if (strToIndex(depth, curStr.c_str()))
 			delim = readNextToken(curStr, stream, whitespace, newline, delim);
-		}
 
 		auto face = Texture::CubeFace::PosX;
 		if (strToCubeFace(face, curStr.c_str()))
@@ -823,16 +826,9 @@ bool CommandLine::parse(int argc, const char** argv)
 		if (matches(argv[i], "-j", "--jobs"))
 		{
 			jobs = Texture::allCores;
-			if (i + 1 < argc)
-			{
-				char* endPtr;
-				unsigned long jobsl = std::strtol(argv[i + 1], &endPtr, 10);
-				if (endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
-				{
-					jobs = static_cast<unsigned int>(jobsl);
-					++i;
-				}
-			}
+			std::size_t jobCount;
+			if (readIndex(jobCount, i, argc, argv))
+				jobs = static_cast<unsigned int>(jobCount);
 		}
 		else if (matches(argv[i], "-q", "--quiet"))
 			log = Log::Quiet;
@@ -1121,7 +1117,7 @@ bool CommandLine::parse(int argc, const char** argv)
 
 			char* endPtr;
 			long angle = std::strtol(argv[++i], &endPtr, 10);
-			if (endPtr != argv[i] + std::strlen(argv[i]) || angle % 90 != 0)
+			if (endPtr == argv[i] || *endPtr != 0 || angle % 90 != 0)
 			{
 				std::cerr << "error: rotate angle must be a multiple of 90 degrees" << std::endl;
 				success = false;
@@ -1188,7 +1184,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			{
 				char* endPtr;
 				double h = std::strtod(argv[i + 1], &endPtr);
-				if (endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
+				if (endPtr != argv[i + 1] && *endPtr == 0)
 				{
 					normalHeight = h;
 					++i;
-- 
2.43.0

