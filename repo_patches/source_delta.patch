From 6b34ba3b3c69cad8243b60cd69753df0db16f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 01/11] fix: detect the encoding mode from the whole text, not
 only from the character that switched the mode

---
 chardet.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/chardet.go b/chardet.go
index 8035b9f..9a2358e 100644
--- a/chardet.go
+++ b/chardet.go
@@ -59,11 +59,8 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 
 	// Loop to check each character in raw data,
 	// from low mode to higher while current mode could bear the input data.
+reAnalyze:
 	for _, r := range raw {
-	reAnalyze:
-		// issue#28 @borislavone reports this bug.
-		// FIXED(@yeqown): next encMode analyzeVersionAuto func did not check the previous byte,
-		// add goto statement to reanalyze previous byte which can't be analyzed in last encMode.
 		if pass := analyzeFn(r); pass {
 			continue
 		}
@@ -72,6 +69,9 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 			break
 		}
 
+		// The next mode is not always a superset of the previous one (Kanji mode could not
+		// encode digits), so analyze the whole text again, including the characters that
+		// have been accepted by the previous mode.
 		goto reAnalyze
 	}
 
-- 
2.43.0


From 141159b96ded4d1dda020a0bf92e28a7833696b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 02/11] fix: choose the lowest mask index on equal penalty
 instead of the goroutine arrival order

---
 qrcode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index 0852331..f084bc2 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -707,7 +707,9 @@ func (q *QRCode) masking() {
 	close(scoreChan)
 
 	for c := range scoreChan {
-		if c.Score < lowScore {
+		// scores arrive in scheduling order, so a tie is decided by the mask index
+		// rather than by the arrival order.
+		if c.Score < lowScore || (c.Score == lowScore && c.Idx < markMatsIdx) {
 			lowScore = c.Score
 			markMatsIdx = c.Idx
 		}
-- 
2.43.0


From b61e66830ea875efa80e9db5d3a77740b3bc8389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 03/11] fix: rule2 compares the color of modules, not their
 type

---
 mask_evaluation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 2c75a6b..b2c7cce 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -80,7 +80,8 @@ func rule2(mat *Matrix) int {
 			s2, _ = mat.at(x, y+1)
 			s3, _ = mat.at(x+1, y+1)
 
-			if s0 == s1 && s2 == s3 && s1 == s2 {
+			// only the color matters, no matter which type the module is.
+			if samestate(s0, s1) && samestate(s2, s3) && samestate(s1, s2) {
 				score += 3
 			}
 		}
-- 
2.43.0


From a28f2bd1156802f9b5d573f64cc10a2e20100c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 04/11] fix: rule3 compares the color of modules, so function
 patterns are matched too

---
 mask_evaluation.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index b2c7cce..02a62b0 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -114,8 +114,8 @@ func rule3(mat *Matrix) (score int) {
 	dimension := mat.Width()
 
 	for i := 0; i < dimension; i++ {
-		col := mat.Col(i)
-		row := mat.Row(i)
+		col := toColors(mat.Col(i))
+		row := toColors(mat.Row(i))
 
 		// DONE(@yeqown): statePattern1 and statePattern2 are fixed, so maybe kmpGetNext
 		// could cache result to speed up.
@@ -128,6 +128,20 @@ func rule3(mat *Matrix) (score int) {
 	return score
 }
 
+// toColors keeps only the color of each module, so that modules could be compared
+// with the patterns no matter which type (data, finder, timing ...) they are.
+func toColors(line []qrvalue) []qrvalue {
+	colors := make([]qrvalue, len(line))
+	for i, v := range line {
+		colors[i] = QRValue_DATA_V0
+		if v.qrbool() {
+			colors[i] = QRValue_DATA_V1
+		}
+	}
+
+	return colors
+}
+
 // rule4 is based on the ratio of light modules to dark modules:
 //
 // 1. Count the total number of modules in the matrix.
-- 
2.43.0


From efaa023d865261d3290195c76f5fcfae521df275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 05/11] fix: rule4 does not treat a truncated percentage as an
 exact multiple of five

---
 mask_evaluation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 02a62b0..c95cb92 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -175,7 +175,8 @@ func rule4(mat *Matrix) int {
 
 	ratio := (dark * 100) / total // in range [0, 100]
 	step := 0
-	if ratio%5 == 0 {
+	if (dark*100)%(total*5) == 0 {
+		// the percent is exactly a multiple of five (ratio has lost the fraction part).
 		step = 1
 	}
 
-- 
2.43.0


From d43074d7992eebf553e89174f395118ca74d3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 06/11] fix: reject an encoding mode which could not be encoded
 instead of panicking

---
 qrcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index f084bc2..7ddb609 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -54,7 +54,7 @@ func validateEncodingMode(mode encMode, text string) error {
 		// Byte mode can encode any character
 		return nil
 	default:
-		return nil
+		return fmt.Errorf("could not encode in %s mode", getEncModeName(mode))
 	}
 
 	for _, r := range text {
-- 
2.43.0


From 3ed6ac3058cd946f11f905241f445fc63a99e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 07/11] fix: compressed writer truncates an existing file

---
 writer/compressed/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/compressed/writer.go b/writer/compressed/writer.go
index 19bc71e..9166d40 100644
--- a/writer/compressed/writer.go
+++ b/writer/compressed/writer.go
@@ -30,7 +30,7 @@ var (
 )
 
 func New(filename string, opt *Option) (qrcode.Writer, error) {
-	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)
+	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bc6f188cfe988ef4f3f9d95bc07b3c8886a1f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 08/11] fix: clear logo safe zone in bitmap as [y][x]

---
 writer/standard/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 65d6bc4..e2c6b4f 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -160,7 +160,7 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	if logoValid && opt.logoSafeZone {
 		mat.Iterate(qrcode.IterDirection_ROW, func(x int, y int, v qrcode.QRValue) {
 			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {
-				bitMap[x][y] = false
+				bitMap[y][x] = false
 			}
 		})
 	}
-- 
2.43.0


From 7b64946b65d7bcdf363bd0b0bb827edee4882e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 09/11] fix: imgkit handles images whose upper-left point is
 not (0, 0)

---
 writer/standard/imgkit/process.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/writer/standard/imgkit/process.go b/writer/standard/imgkit/process.go
index 5cbfd87..ccb0018 100644
--- a/writer/standard/imgkit/process.go
+++ b/writer/standard/imgkit/process.go
@@ -15,10 +15,10 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 	gray := Gray(src)
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	// the upper-left point of an image is not always (0, 0), such as a sub image.
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			// var rgb int = int(gray[i][j][0]) + int(gray[i][j][1]) + int(gray[i][j][2])
 			if gray.At(j, i).(color.Gray).Y > threshold {
 				gray.Set(j, i, color.White)
@@ -33,11 +33,10 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 func Gray(src image.Image) *image.Gray {
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 	gray := image.NewGray(bounds)
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			c := color.GrayModel.Convert(src.At(j, i))
 			gray.SetGray(j, i, c.(color.Gray))
 		}
-- 
2.43.0


From c33eb84907b9d14f27ad23cbbb91daa5692cf1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:04 +0000
Subject: [PATCH 10/11] fix: accept named string and byte slice types instead
 of panicking

---
 qrcode.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qrcode.go b/qrcode.go
index 7ddb609..426cc53 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -28,14 +28,7 @@ func NewWith[T ~string | ~[]byte](text T, opts ...EncodeOption) (*QRCode, error)
 }
 
 func toBytes[T ~string | ~[]byte](v T) []byte {
-	switch x := any(v).(type) {
-	case string:
-		return []byte(x)
-	case []byte:
-		return x
-	default:
-		panic("unreachable")
-	}
+	return []byte(v)
 }
 
 // validateEncodingMode checks if the specified encoding mode is compatible with the input text.
-- 
2.43.0


From 6493920abf621f942eccc429067f5559b70ba20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 11/11] fix: centre logos whose bounds do not start at the
 origin

gg.Context.DrawImage places the origin of the image's coordinates at the given
point, so a logo such as a sub-image was drawn shifted by its upper-left corner.
---
 writer/standard/writer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index e2c6b4f..4be3151 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -146,10 +146,12 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	// If so, mark it as valid and store its dimensions for safe zone calculation.
 	var logoValid bool
 	var logoWidth, logoHeight int
+	var logoMin image.Point
 	if opt.logoImage() != nil {
 		bound := opt.logo.Bounds()
 		upperLeft, lowerRight := bound.Min, bound.Max
 		logoWidth, logoHeight = lowerRight.X-upperLeft.X, lowerRight.Y-upperLeft.Y
+		logoMin = upperLeft
 
 		logoValid = validLogoImage(w, h, logoWidth, logoHeight, opt.logoSizeMultiplier)
 	}
@@ -234,8 +236,9 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	}
 
 	// DONE(@yeqown): calculate the xOffset and yOffset which point(xOffset, yOffset)
-	// should icon upper-left to start
-	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2, (h-logoHeight)/2)
+	// should icon upper-left to start. gg places the origin of the image there, not its
+	// upper-left corner, which differs for an image such as a sub-image.
+	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2-logoMin.X, (h-logoHeight)/2-logoMin.Y)
 
 done:
 	return dc.Image()
-- 
2.43.0

