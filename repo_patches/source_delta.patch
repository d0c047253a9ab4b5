From bfec7b4eb5a6aca9fc6d84f9fdc411ba63ed3d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 01/45] fix: split comma-separated negotiation header fields
 into their elements

A user agent may combine several ranges, directives or expressions in one
field line. Such lines were rejected or treated as a single element.
---
 internal/header/accept.go          |  2 +-
 internal/header/accept_charset.go  |  2 +-
 internal/header/accept_encoding.go |  2 +-
 internal/header/accept_features.go |  2 +-
 internal/header/field_value.go     | 57 ++++++++++++++++++++++++++++++
 internal/header/negotiate.go       |  2 +-
 6 files changed, 62 insertions(+), 5 deletions(-)
 create mode 100644 internal/header/field_value.go

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 43d2004..776fe47 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -49,7 +49,7 @@ func NewAccept(accept []string) (Accept, error) {
 
 	// parse media ranges
 	var mediaRanges []MediaRange
-	for _, m := range accept {
+	for _, m := range splitFieldValues(accept) {
 		mediaRange, err := parseMediaRange(m)
 		if err != nil {
 			return EmptyAccept, err
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index d79f13c..9029a91 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -50,7 +50,7 @@ func NewAcceptCharset(acceptCharset []string) (AcceptCharset, error) {
 		return EmptyAcceptCharset, nil
 	}
 	var charsets []CharsetRange
-	for _, c := range acceptCharset {
+	for _, c := range splitFieldValues(acceptCharset) {
 		charset, err := NewCharsetRange(c)
 		if err != nil {
 			return EmptyAcceptCharset, err
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index fbef4ff..63cf990 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -47,7 +47,7 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 		return EmptyAcceptEncoding, nil
 	}
 	var contentCodings []ContentCodingRange
-	for _, cc := range acceptEncoding {
+	for _, cc := range splitFieldValues(acceptEncoding) {
 		coding, err := NewContentCodingRange(cc)
 		if err != nil {
 			return EmptyAcceptEncoding, err
diff --git a/internal/header/accept_features.go b/internal/header/accept_features.go
index 410369b..49937ea 100644
--- a/internal/header/accept_features.go
+++ b/internal/header/accept_features.go
@@ -46,7 +46,7 @@ func NewAcceptFeatures(acceptFeatures []string) (AcceptFeatures, error) {
 		return EmptyAcceptFeatures, nil
 	}
 	var expressions []FeatureExpression
-	for _, e := range acceptFeatures {
+	for _, e := range splitFieldValues(acceptFeatures) {
 		expressions = append(expressions, FeatureExpression(e))
 	}
 	return AcceptFeatures(expressions), nil
diff --git a/internal/header/field_value.go b/internal/header/field_value.go
new file mode 100644
index 0000000..19065b3
--- /dev/null
+++ b/internal/header/field_value.go
@@ -0,0 +1,57 @@
+/* Copyright 2024 Freerware
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package header
+
+import "strings"
+
+// splitFieldValues expands field values containing comma-separated lists into
+// the individual list elements. A field value without a list is left as is.
+//
+// https://tools.ietf.org/html/rfc7230#section-7
+func splitFieldValues(values []string) []string {
+	var elements []string
+	for _, value := range values {
+		if !strings.Contains(value, ",") {
+			elements = append(elements, value)
+			continue
+		}
+		var (
+			start           int
+			quoted, escaped bool
+		)
+		add := func(end int) {
+			// a recipient must parse and ignore empty list elements.
+			if e := strings.Trim(value[start:end], " \t"); e != "" {
+				elements = append(elements, e)
+			}
+			start = end + 1
+		}
+		for i := 0; i < len(value); i++ {
+			switch {
+			case escaped:
+				escaped = false
+			case quoted && value[i] == '\\':
+				escaped = true
+			case value[i] == '"':
+				quoted = !quoted
+			case value[i] == ',' && !quoted:
+				add(i)
+			}
+		}
+		add(len(value))
+	}
+	return elements
+}
diff --git a/internal/header/negotiate.go b/internal/header/negotiate.go
index c3250db..fae5c4a 100644
--- a/internal/header/negotiate.go
+++ b/internal/header/negotiate.go
@@ -34,7 +34,7 @@ type Negotiate []NegotiateDirective
 // NewNegotiate constructs a Negotiate header with the provided directives.
 func NewNegotiate(directives []string) (Negotiate, error) {
 	var dirs []NegotiateDirective
-	for _, d := range directives {
+	for _, d := range splitFieldValues(directives) {
 		directive, err := NewNegotiateDirective(d)
 		if err != nil {
 			return EmptyNegotiateHeader, err
-- 
2.43.0


From b2d0bac562ff85ba90a73f9da883f0309b1285fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 02/45] fix: honour integer content coding weights

The fractional digits alone were parsed as the weight, so that gzip;q=1 and
gzip;q=1.0 were treated as unacceptable.
---
 internal/header/content_coding_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 470c81d..7448fd3 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -90,7 +90,7 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
 
 	if len(groups[3]) > 0 {
-		q, _ := strconv.ParseFloat(groups[4], 32)
+		q, _ := strconv.ParseFloat(groups[3], 32)
 		qv, err := NewQualityValue(float32(q))
 		if err != nil {
 			return ContentCodingRange{}, err
-- 
2.43.0


From 994a3b6d15d1315a4a21e22a41b9d5abfe224aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 03/45] fix: accept optional whitespace, case and registered
 names in charset and coding ranges

Whitespace around the weight separator, an upper case weight name, upper case
content codings, and charset names such as Shift_JIS were rejected.
---
 internal/header/charset_range.go        | 2 +-
 internal/header/content_coding_range.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/header/charset_range.go b/internal/header/charset_range.go
index 3c21d93..7fc647b 100644
--- a/internal/header/charset_range.go
+++ b/internal/header/charset_range.go
@@ -23,7 +23,7 @@ import (
 	"strings"
 )
 
-var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var charsetRangeRegex = regexp.MustCompile(`^([\w.:+-]+|\*)(\s*;\s*[qQ]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	// defaultCharsetRange represents the default charset range.
diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 7448fd3..66b8526 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -25,7 +25,7 @@ import (
 	"github.com/stretchr/stew/slice"
 )
 
-var contentCodingRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var contentCodingRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(\s*;\s*[qQ]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	gzip      = "gzip"
@@ -84,7 +84,7 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	}
 	groups := contentCodingRangeRegex.FindStringSubmatch(contentCoding)
 
-	if !slice.ContainsString(contentCodings, groups[1]) {
+	if !slice.ContainsString(contentCodings, strings.ToLower(groups[1])) {
 		return ContentCodingRange{}, ErrInvalidContentCodingRange
 	}
 	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
-- 
2.43.0


From fc6c0b7ee753ccab38c158d5f0f74b10771f9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 04/45] fix: recognise the br and zstd content codings

User agents list them by default, which made every such request fail.
---
 internal/header/content_coding_range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 66b8526..e7fd98d 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -34,6 +34,8 @@ var (
 	compress  = "compress"
 	xcompress = "x-compress"
 	identity  = "identity"
+	brotli    = "br"
+	zstandard = "zstd"
 
 	contentCodings = []string{
 		gzip,
@@ -42,6 +44,8 @@ var (
 		compress,
 		xcompress,
 		identity,
+		brotli,
+		zstandard,
 		"*",
 	}
 
-- 
2.43.0


From 0f7d4ff635dd11e587efb3ca2fb5036a7b836c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 05/45] fix: retain language ranges that are not acceptable

A language range with a weight of 0 was dropped while parsing, so that the
languages it excludes were considered acceptable when no other range was
present.
---
 internal/header/accept_language.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index ac04d4c..8a7a89c 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -65,6 +65,29 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 			qValue: qv,
 		})
 	}
+
+	// ranges with a quality value of 0 are dropped above, but they exclude the
+	// languages they match.
+	for _, entry := range splitFieldValues(acceptLanguage) {
+		kept, _, err := language.ParseAcceptLanguage(entry)
+		if err != nil {
+			return EmptyAcceptLanguage, err
+		}
+		if len(kept) > 0 {
+			continue
+		}
+		tags, _, err = language.ParseAcceptLanguage(strings.Split(entry, ";")[0])
+		if err != nil {
+			return EmptyAcceptLanguage, err
+		}
+		for _, tag := range tags {
+			ranges = append(ranges, LanguageRange{
+				lrange: tag.String() + ";q=" + QualityValueMinimum.String(),
+				tag:    tag,
+				qValue: QualityValueMinimum,
+			})
+		}
+	}
 	return AcceptLanguage(ranges), nil
 }
 
-- 
2.43.0


From 1448aaed6a3a918eab10a60c17ae1d1e467b9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 06/45] fix: treat the "*" language range of Accept-Language as
 a wildcard

The parser maps "*" to the tag "mul", which was compatible with no language.
---
 internal/header/language_range.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index fed00d4..d7096d8 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -32,6 +32,9 @@ var (
 		qValue: QualityValueMaximum,
 	}
 
+	// wildcardTag is the language tag that stands for the range "*".
+	wildcardTag = language.MustParse("mul")
+
 	// ErrEmptyLanguageRange is an error that indicates that the language
 	// range cannot be empty.
 	ErrEmptyLanguageRange = errors.New("language range cannot be empty")
@@ -80,7 +83,8 @@ func NewLanguageRange(languageRange string) (LanguageRange, error) {
 
 // IsWildcard indicates if the language range is '*'.
 func (lr LanguageRange) IsWildcard() bool {
-	return lr.lrange == "*"
+	// the Accept-Language parser provides the tag "mul" for the range "*".
+	return lr.lrange == "*" || lr.tag == wildcardTag
 }
 
 // IsTag indicates if the language range specifies a language tag.
-- 
2.43.0


From 956de960f7594e358edcae8403286bf2afea382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 07/45] fix: accept upper case weight names in Accept-Language

---
 internal/header/accept_language.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index 8a7a89c..24715b1 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -48,7 +48,7 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 	if len(acceptLanguage) == 0 {
 		return EmptyAcceptLanguage, nil
 	}
-	tags, qValues, err := language.ParseAcceptLanguage(strings.Join(acceptLanguage, ","))
+	tags, qValues, err := language.ParseAcceptLanguage(strings.ToLower(strings.Join(acceptLanguage, ",")))
 	if err != nil {
 		return EmptyAcceptLanguage, err
 	}
@@ -69,7 +69,7 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 	// ranges with a quality value of 0 are dropped above, but they exclude the
 	// languages they match.
 	for _, entry := range splitFieldValues(acceptLanguage) {
-		kept, _, err := language.ParseAcceptLanguage(entry)
+		kept, _, err := language.ParseAcceptLanguage(strings.ToLower(entry))
 		if err != nil {
 			return EmptyAcceptLanguage, err
 		}
-- 
2.43.0


From 912ddab2f3b764eb8e1c4eac5e5d43bddce1d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 08/45] fix: reject quality values that are not a number

---
 internal/header/quality_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/quality_value.go b/internal/header/quality_value.go
index b359bc7..3a22ad6 100644
--- a/internal/header/quality_value.go
+++ b/internal/header/quality_value.go
@@ -53,7 +53,7 @@ var ErrInvalidQualityValue = errors.New("quality range must be between 0.0 and 1
 func NewQualityValue(qvalue float32) (QualityValue, error) {
 	tooLow, tooHigh := qvalue < QualityValueMinimum.Float(),
 		qvalue > QualityValueMaximum.Float()
-	if tooLow || tooHigh {
+	if tooLow || tooHigh || math.IsNaN(float64(qvalue)) {
 		return QualityValue(0), ErrInvalidQualityValue
 	}
 	return QualityValue(qvalue), nil
-- 
2.43.0


From a18b970135c2de3f0ac3dc3eca0783c03a81834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 09/45] fix: ignore the weight when matching media range
 parameters

A media range having both a parameter and a weight, such as
text/html;level=1;q=0.5, matched no media type.
---
 internal/header/media_range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index 0dabc44..a986970 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -151,6 +151,10 @@ func (mr MediaRange) Compatible(mediaType string) (bool, error) {
 	matchedParams := true
 	if mr.HasParams() {
 		for k, v := range mr.params {
+			// the weight is not a media type parameter.
+			if k == "q" {
+				continue
+			}
 			if vv, ok := params[k]; !ok || v != vv {
 				matchedParams = false
 				break
-- 
2.43.0


From 90b66d16a5b06d8cca852b537916af37e47f6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 10/45] fix: apply the most specific matching range

The compatible range with the highest weight was applied, so that a weight
given to a specific type, charset or language had no effect next to a
wildcard, and an excluded type (q=0) was still served.
---
 internal/header/accept.go               | 11 +++++++++--
 internal/header/accept_charset.go       |  9 ++++++---
 internal/header/accept_language.go      |  9 ++++++---
 internal/header/charset_range.go        |  9 +++++++++
 internal/header/content_coding_range.go | 10 ++++++++++
 internal/header/language_range.go       | 13 +++++++++++++
 internal/header/media_range.go          | 20 ++++++++++++++++++++
 proactive/apache_httpd.go               | 15 +++++++++------
 transparent/rvsa.go                     | 19 ++++++++++---------
 9 files changed, 92 insertions(+), 23 deletions(-)

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 776fe47..cce90a2 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -75,12 +75,19 @@ func (a Accept) MediaRanges() []MediaRange {
 }
 
 // Compatible determines if the provided media type is compatible with any
-// of the media ranges within the Accept header value.
+// of the media ranges within the Accept header value, and is acceptable
+// according to the most specific of them.
 func (a Accept) Compatible(mediaType string) (c bool, err error) {
+	specificity := -1
 	for _, r := range a.MediaRanges() {
-		if c, err = r.Compatible(mediaType); err != nil || c {
+		var matched bool
+		if matched, err = r.Compatible(mediaType); err != nil {
 			return
 		}
+		if matched && r.Specificity() > specificity {
+			c = r.QualityValue() != QualityValueMinimum
+			specificity = r.Specificity()
+		}
 	}
 	return
 }
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index 9029a91..8cb0920 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -72,11 +72,14 @@ func (c AcceptCharset) CharsetRanges() []CharsetRange {
 }
 
 // Compatible determines if the provided charset is compatible with any
-// of the charset ranges within the Accept-Charset header value.
+// of the charset ranges within the Accept-Charset header value, and is
+// acceptable according to the most specific of them.
 func (c AcceptCharset) Compatible(charset string) (cc bool, err error) {
+	specificity := -1
 	for _, r := range c.CharsetRanges() {
-		if cc = r.Compatible(charset); err != nil || cc {
-			return
+		if r.Compatible(charset) && r.Specificity() > specificity {
+			cc = r.QualityValue() != QualityValueMinimum
+			specificity = r.Specificity()
 		}
 	}
 	return
diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index 24715b1..a3fc28c 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -107,11 +107,14 @@ func (l AcceptLanguage) LanguageRanges() []LanguageRange {
 }
 
 // Compatible determines if the provided language is compatible with any
-// of the language ranges within the Accept-Language header value.
+// of the language ranges within the Accept-Language header value, and is
+// acceptable according to the most specific of them.
 func (l AcceptLanguage) Compatible(language string) (c bool, err error) {
+	specificity := -1
 	for _, r := range l.LanguageRanges() {
-		if c = r.Compatible(language); err != nil || c {
-			return
+		if r.Compatible(language) && r.Specificity(language) > specificity {
+			c = r.QualityValue() != QualityValueMinimum
+			specificity = r.Specificity(language)
 		}
 	}
 	return
diff --git a/internal/header/charset_range.go b/internal/header/charset_range.go
index 7fc647b..e87dc60 100644
--- a/internal/header/charset_range.go
+++ b/internal/header/charset_range.go
@@ -103,6 +103,15 @@ func (c CharsetRange) Compatible(charset string) bool {
 	return strings.EqualFold(c.r, charset)
 }
 
+// Specificity determines how specific the charset range is. When multiple
+// charset ranges are compatible with a charset, the most specific one applies.
+func (c CharsetRange) Specificity() int {
+	if c.IsWildcard() {
+		return 0
+	}
+	return 1
+}
+
 // String provides a textual representation of the charset range.
 func (c CharsetRange) String() string {
 	return fmt.Sprintf("%s;q=%s", c.Charset(), c.QualityValue().String())
diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index e7fd98d..d376acc 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -145,6 +145,16 @@ func (cc ContentCodingRange) QualityValue() QualityValue {
 	return cc.qValue
 }
 
+// Specificity determines how specific the content coding range is. When
+// multiple content coding ranges are compatible with a content coding, the most
+// specific one applies.
+func (cc ContentCodingRange) Specificity() int {
+	if cc.IsWildcard() {
+		return 0
+	}
+	return 1
+}
+
 // String provides a textual representation of the content coding.
 func (cc ContentCodingRange) String() string {
 	return fmt.Sprintf("%s;q=%s", cc.CodingRange(), cc.QualityValue().String())
diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index d7096d8..ee59e12 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -118,6 +118,19 @@ func (lr LanguageRange) Compatible(tag string) bool {
 	return i != 0
 }
 
+// Specificity determines how specific the language range is for the provided
+// language tag. When multiple language ranges are compatible with a language
+// tag, the most specific one applies.
+func (lr LanguageRange) Specificity(tag string) int {
+	if lr.IsWildcard() {
+		return 0
+	}
+	if t, err := language.Parse(tag); err == nil && t == lr.tag {
+		return 1000
+	}
+	return 1 + strings.Count(lr.Tag(), "-")
+}
+
 // String provides a textual representation of the language range.
 func (lr LanguageRange) String() string {
 	return fmt.Sprintf("%s;q=%s", lr.lrange, lr.QualityValue().String())
diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index a986970..b41d80c 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -176,6 +176,26 @@ func (mr MediaRange) Precedence() int {
 	return 2 + len(mr.params)
 }
 
+// Specificity determines how specific the media range is. When multiple media
+// ranges are compatible with a media type, the most specific one applies.
+//
+// https://tools.ietf.org/html/rfc7231#section-5.3.2
+func (mr MediaRange) Specificity() int {
+	var specificity int
+	for k := range mr.params {
+		if k != "q" {
+			specificity++
+		}
+	}
+	if !mr.IsTypeWildcard() {
+		specificity += 1000
+	}
+	if !mr.IsSubTypeWildcard() {
+		specificity += 1000
+	}
+	return specificity
+}
+
 // String provides the textual representation of the media range.
 func (mr MediaRange) String() string {
 	var params []string
diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index d2237af..6de8afd 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -294,11 +294,12 @@ func (c httpd) acceptQuality(
 	if rep.ContentType() == "" || accept.IsEmpty() {
 		qt = header.QualityValueMaximum
 	} else {
+		specificity := -1
 		for _, mr := range accept.MediaRanges() {
 			compatible, err := mr.Compatible(rep.ContentType())
-			if compatible && err == nil {
+			if compatible && err == nil && mr.Specificity() > specificity {
 				qt = mr.QualityValue()
-				break
+				specificity = mr.Specificity()
 			}
 		}
 	}
@@ -315,10 +316,11 @@ func (c httpd) acceptCharsetQuality(
 	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {
 		qc = header.QualityValueMaximum
 	} else {
+		specificity := -1
 		for _, c := range acceptCharset.CharsetRanges() {
-			if c.Compatible(rep.ContentCharset()) {
+			if c.Compatible(rep.ContentCharset()) && c.Specificity() > specificity {
 				qc = c.QualityValue()
-				break
+				specificity = c.Specificity()
 			}
 		}
 	}
@@ -336,11 +338,12 @@ func (c httpd) acceptLanguageQuality(
 	if rep.ContentLanguage() == "" || acceptLanguage.IsEmpty() {
 		ql = header.QualityValueMaximum
 	} else {
+		specificity := -1
 		for idx, lr := range acceptLanguage {
-			if lr.Compatible(rep.ContentLanguage()) {
+			if lr.Compatible(rep.ContentLanguage()) && lr.Specificity(rep.ContentLanguage()) > specificity {
 				ql = lr.QualityValue()
 				los = len(acceptLanguage) - idx
-				break
+				specificity = lr.Specificity(rep.ContentLanguage())
 			}
 		}
 	}
diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 605609e..6d4b40c 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -128,14 +128,13 @@ func (c rvsa1) acceptQuality(
 		return header.QualityValueMaximum, true
 	}
 	qt := header.QualityValueMinimum
+	specificity := -1
 	for _, mr := range accept.MediaRanges() {
 		compatible, err := mr.Compatible(rep.ContentType())
-		if compatible && err == nil {
+		if compatible && err == nil && mr.Specificity() > specificity {
 			qt = mr.QualityValue()
-			if mr.Type() == "*" || mr.SubType() == "*" {
-				usedWildcard = true
-			}
-			break
+			usedWildcard = mr.Type() == "*" || mr.SubType() == "*"
+			specificity = mr.Specificity()
 		}
 	}
 	return qt, usedWildcard
@@ -155,11 +154,12 @@ func (c rvsa1) acceptLanguageQuality(
 		return header.QualityValueMaximum, true
 	}
 	ql := header.QualityValueMinimum
+	specificity := -1
 	for _, lr := range acceptLanguage {
-		if lr.Compatible(rep.ContentLanguage()) {
+		if lr.Compatible(rep.ContentLanguage()) && lr.Specificity(rep.ContentLanguage()) > specificity {
 			ql = lr.QualityValue()
 			usedWildcard = lr.IsWildcard()
-			break
+			specificity = lr.Specificity(rep.ContentLanguage())
 		}
 	}
 	return ql, usedWildcard
@@ -179,11 +179,12 @@ func (c rvsa1) acceptCharsetQuality(
 		return header.QualityValueMaximum, true
 	}
 	qc := header.QualityValueMinimum
+	specificity := -1
 	for _, c := range acceptCharset.CharsetRanges() {
-		if c.Compatible(rep.ContentCharset()) {
+		if c.Compatible(rep.ContentCharset()) && c.Specificity() > specificity {
 			qc = c.QualityValue()
 			usedWildcard = c.IsWildcard()
-			break
+			specificity = c.Specificity()
 		}
 	}
 	return qc, usedWildcard
-- 
2.43.0


From 5b5b5f418e932a86765415cdfdb932896c05aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 11/45] fix: evaluate every content coding of a representation

A representation having several content codings was acceptable when only one
of them was, the wildcard took precedence over an explicitly listed coding,
and the rules for representations without content coding (identity) were not
honoured: they were rejected unless listed, and served when excluded.
---
 proactive/apache_httpd.go | 42 ++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 6de8afd..43355c1 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -356,17 +356,45 @@ func (c httpd) acceptEncodingQuality(
 	rep representation.Representation,
 	acceptEncoding header.AcceptEncoding,
 ) header.QualityValue {
-	if len(rep.ContentEncoding()) == 0 || acceptEncoding.IsEmpty() {
+	if acceptEncoding.IsEmpty() {
 		return header.QualityValueMaximum
 	}
-	for _, c := range acceptEncoding.CodingRanges() {
-		for _, e := range rep.ContentEncoding() { // TODO(FREER)
-			if c.Compatible(e) {
-				return c.QualityValue()
-			}
+
+	// the user agent has to undo every content coding that has been applied. A
+	// representation without content coding is acceptable unless excluded.
+	qe, identity := header.QualityValueMaximum, true
+	for _, e := range rep.ContentEncoding() {
+		if strings.EqualFold(e, "identity") {
+			continue
+		}
+		identity = false
+		if q, _ := c.codingQuality(e, acceptEncoding); q.LessThan(qe) {
+			qe = q
+		}
+	}
+	if identity {
+		if q, ok := c.codingQuality("identity", acceptEncoding); ok {
+			qe = q
+		}
+	}
+	return qe
+}
+
+// codingQuality determines the quality score for a content coding based on the
+// most specific matching content coding range of the Accept-Encoding header,
+// and whether there is such a range.
+func (c httpd) codingQuality(
+	coding string,
+	acceptEncoding header.AcceptEncoding,
+) (header.QualityValue, bool) {
+	q, specificity := header.QualityValueMinimum, -1
+	for _, r := range acceptEncoding.CodingRanges() {
+		if r.Compatible(coding) && r.Specificity() > specificity {
+			q = r.QualityValue()
+			specificity = r.Specificity()
 		}
 	}
-	return header.QualityValueMinimum
+	return q, specificity >= 0
 }
 
 type hwl struct {
-- 
2.43.0


From e1d76ae34c4f9a53120f22c6a621221280fa9bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:11 +0000
Subject: [PATCH 12/45] fix: accept representations that do not specify a type,
 language or charset

They failed strict mode even when the request had no such header, while the
algorithm considers them acceptable.
---
 proactive/proactive.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index 543b552..9a207cf 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -193,20 +193,28 @@ func (n Negotiator) Negotiate(
 		}
 	}
 	for _, r := range reps {
+		// a header isn't applicable to representations that don't specify the
+		// corresponding metadata, nor does it express anything when empty.
 		var c bool
-		if c, err = accept.Compatible(r.ContentType()); err != nil {
+		if r.ContentType() == "" || accept.IsEmpty() {
+			// not applicable.
+		} else if c, err = accept.Compatible(r.ContentType()); err != nil {
 			return err
 		} else if !c {
 			ac++
 		}
 
-		if c, err = acceptLanguage.Compatible(r.ContentLanguage()); err != nil {
+		if r.ContentLanguage() == "" || acceptLanguage.IsEmpty() {
+			// not applicable.
+		} else if c, err = acceptLanguage.Compatible(r.ContentLanguage()); err != nil {
 			return err
 		} else if !c {
 			alc++
 		}
 
-		if c, err = acceptCharset.Compatible(r.ContentCharset()); err != nil {
+		if r.ContentCharset() == "" || acceptCharset.IsEmpty() {
+			// not applicable.
+		} else if c, err = acceptCharset.Compatible(r.ContentCharset()); err != nil {
 			return err
 		} else if !c {
 			acc++
-- 
2.43.0


From d16bd8ffbcd8040207506c58bc5093466270b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 13/45] fix: prefer the language listed first among equally
 weighted languages

The score is highest for the first range, while the lowest was selected.
---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 43355c1..519bad6 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -245,7 +245,7 @@ var (
 	// bestLanguageOrder selects the variants with best language order score.
 	bestLanguageOrder filter = func(variants representation.Set) (representation.Set, error) {
 		variants.Sort(func(i, j int) bool {
-			return variants[i].LanguageOrderScore < variants[j].LanguageOrderScore
+			return variants[i].LanguageOrderScore > variants[j].LanguageOrderScore
 		})
 		highest := variants.First()
 		return variants.Where(func(v representation.RankedRepresentation) bool {
-- 
2.43.0


From f4df30efc694e2ff85f5a56e045ae741b2939504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 14/45] fix: select only the variants with the highest level

Variants with a lower level remained eligible for the filters that follow.
---
 proactive/apache_httpd.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 519bad6..925fe63 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -272,11 +272,13 @@ var (
 		}
 		var htmlVariants representation.Set
 		if len(htmlWithLevel) > 0 {
-			sort.Slice(htmlWithLevel, func(i, j int) bool {
+			sort.SliceStable(htmlWithLevel, func(i, j int) bool {
 				return htmlWithLevel[i].l > htmlWithLevel[j].l
 			})
 			for _, v := range htmlWithLevel {
-				htmlVariants = append(htmlVariants, v.v)
+				if v.l == htmlWithLevel[0].l {
+					htmlVariants = append(htmlVariants, v.v)
+				}
 			}
 			return htmlVariants, nil
 		}
-- 
2.43.0


From bed9863e1a76f794a31b617903d8218abacdef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 15/45] fix: tolerate variants without a content type when
 comparing levels

---
 proactive/apache_httpd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 925fe63..ef262ff 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -257,6 +257,9 @@ var (
 	bestLevel filter = func(variants representation.Set) (representation.Set, error) {
 		var htmlWithLevel []hwl
 		for _, v := range variants {
+			if v.ContentType() == "" {
+				continue
+			}
 			mt, p, err := mime.ParseMediaType(v.ContentType())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 67ec916a4d66ee7cb9e17cf2b160dca0287b42a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 16/45] fix: keep the order of equally ranked representations
 when sorting

With more than 12 representations, which of the equally good ones got chosen
was arbitrary.
---
 representation/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/representation/set.go b/representation/set.go
index 977dc93..34f482e 100644
--- a/representation/set.go
+++ b/representation/set.go
@@ -43,7 +43,7 @@ func (s Set) AsSlice() []RankedRepresentation {
 
 // Sort sorts the representation set based on the provided less function.
 func (s Set) Sort(less func(i, j int) bool) {
-	sort.Slice(s, less)
+	sort.SliceStable(s, less)
 }
 
 // First task the first element of the representation set. Must check if
-- 
2.43.0


From 1e7ef0c1854942210874fcb3b9bef78b57a3bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 17/45] fix: do not count 204 responses as multiple choices in
 reactive negotiation

---
 reactive/reactive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reactive/reactive.go b/reactive/reactive.go
index 540b9e7..b42058b 100644
--- a/reactive/reactive.go
+++ b/reactive/reactive.go
@@ -96,7 +96,7 @@ func (n Negotiator) Negotiate(
 	defer func() {
 		if err != nil {
 			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
-		} else {
+		} else if len(reps) > 0 {
 			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
 		}
 	}()
-- 
2.43.0


From c29b3fcfd794a77e97926f3ee1c5e551cd7776ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 18/45] fix: respond with 204 when there are no representations
 in transparent negotiation

It panicked. Proactive and reactive negotiation respond with 204 as well.
---
 transparent/transparent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 98fc0bc..94473e0 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -127,6 +127,13 @@ func (n Negotiator) Negotiate(
 		}
 	}()
 
+	if len(reps) == 0 {
+		status := http.StatusNoContent
+		ctx.ResponseWriter.WriteHeader(status)
+		n.logger.Info("no representations to negotiate", zap.Int("status", status))
+		return err
+	}
+
 	if len(reps) > n.maximumVariantListSize {
 		return ErrVariantListSizeExceeded
 	}
-- 
2.43.0


From 62ca4acc01282fb482c7f5adbf9fd6bf11e776dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 19/45] fix: return an error for malformed content features
 instead of panicking

---
 transparent/rvsa.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 6d4b40c..23b6eb0 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -79,7 +79,10 @@ func (c rvsa1) Choose(
 		qt, twc := c.acceptQuality(rep, a)
 		qc, cwc := c.acceptCharsetQuality(rep, ac)
 		ql, lwc := c.acceptLanguageQuality(rep, al)
-		qf, fwc := c.acceptFeatureQuality(rep, af)
+		qf, fwc, err := c.acceptFeatureQuality(rep, af)
+		if err != nil {
+			return nil, err
+		}
 
 		isDefinite := !twc && !cwc && !lwc && !fwc
 		variants = append(variants, representation.RankedRepresentation{
@@ -195,22 +198,22 @@ func (c rvsa1) acceptCharsetQuality(
 func (c rvsa1) acceptFeatureQuality(
 	rep representation.Representation,
 	acceptFeature header.AcceptFeatures,
-) (header.QualityValue, bool) {
+) (header.QualityValue, bool, error) {
 	var usedWildcard bool
 	if len(rep.ContentFeatures()) == 0 {
-		return header.QualityValueMaximum, false
+		return header.QualityValueMaximum, false, nil
 	}
 	if acceptFeature.IsEmpty() {
-		return header.QualityValueMaximum, true
+		return header.QualityValueMaximum, true, nil
 	}
 	featureList, err := header.NewFeatureList(rep.ContentFeatures())
 	if err != nil {
-		panic(err) // TODO(FREER)
+		return header.QualityValueMinimum, false, err
 	}
 	degradation := featureList.QualityDegradation(
 		acceptFeature.AsFeatureSets(),
 	)
-	return header.QualityValue(degradation), usedWildcard // TODO(FREER)
+	return header.QualityValue(degradation), usedWildcard, nil // TODO(FREER)
 }
 
 func (c rvsa1) overallQuality(v representation.RankedRepresentation) float32 {
-- 
2.43.0


From 898bcb8cfad88ac89ec9db88b716fdc528a03d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 20/45] fix: apply multiple content codings in order and flush
 all of them

The codings were applied in reverse order and only the outermost writer was
closed, so that the bytes were truncated and could not be decoded.
---
 representation/base.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index abbc543..1409382 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -188,7 +188,11 @@ func (r *Base) encode(b []byte) (bb []byte, err error) {
 		writerConstructors = r.encodingWriters
 	}
 
-	for _, e := range encodings {
+	// the content codings are listed in the order they are applied, hence the
+	// first one is the outermost writer.
+	var writers []io.WriteCloser
+	for idx := len(encodings) - 1; idx >= 0; idx-- {
+		e := encodings[idx]
 		if _, ok := writerConstructors[strings.ToLower(e)]; !ok {
 			err = ErrUnsupportedContentEncoding
 			return
@@ -196,12 +200,15 @@ func (r *Base) encode(b []byte) (bb []byte, err error) {
 		if writer, err = writerConstructors[strings.ToLower(e)](writer); err != nil {
 			return
 		}
+		writers = append(writers, writer)
 	}
 	if _, err = writer.Write(b); err != nil {
 		return
 	}
-	if err = writer.Close(); err != nil {
-		return
+	for idx := len(writers) - 1; idx >= 0; idx-- {
+		if err = writers[idx].Close(); err != nil {
+			return
+		}
 	}
 	bb = buf.Bytes()
 	return
-- 
2.43.0


From ec07edfcc6d94b48b5e8c9f609ab742ae9868f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 21/45] fix: report errors encountered while decoding

Closing the readers replaced the error, so that corrupted payloads and
unsupported content codings went unnoticed, and closed a nil reader when the
construction of a reader failed.
---
 representation/base.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index 1409382..618f2f6 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -260,9 +260,11 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 		if reader, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
 			return
 		}
-		defer func() {
-			err = reader.Close()
-		}()
+		defer func(reader io.ReadCloser) {
+			if closeErr := reader.Close(); err == nil {
+				err = closeErr
+			}
+		}(reader)
 	}
 	if bb, err = io.ReadAll(reader); err != nil {
 		return
-- 
2.43.0


From 47bcccf4a1d3fa64a3b09c57a664f3d4236c2996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 22/45] fix: treat identity as no transformation wherever it is
 listed

A leading identity disabled the codings that follow, and any other identity
was not supported.
---
 representation/base.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index 618f2f6..a78d1b0 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -168,7 +168,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 	}
 
 	encodings := r.ContentEncoding()
-	if len(encodings) < 1 || strings.ToLower(encodings[0]) == "identity" {
+	if len(encodings) < 1 {
 		return b, nil
 	}
 
@@ -193,6 +193,9 @@ func (r *Base) encode(b []byte) (bb []byte, err error) {
 	var writers []io.WriteCloser
 	for idx := len(encodings) - 1; idx >= 0; idx-- {
 		e := encodings[idx]
+		if strings.ToLower(e) == "identity" {
+			continue
+		}
 		if _, ok := writerConstructors[strings.ToLower(e)]; !ok {
 			err = ErrUnsupportedContentEncoding
 			return
@@ -229,7 +232,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 
 	// decode.
 	encodings := r.ContentEncoding()
-	if len(encodings) > 0 && strings.ToLower(encodings[0]) != "identity" {
+	if len(encodings) > 0 {
 		if b, err = r.decode(b); err != nil {
 			return
 		}
@@ -253,6 +256,9 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 
 	for idx := len(encodings) - 1; idx >= 0; idx-- {
 		e := encodings[idx]
+		if strings.ToLower(e) == "identity" {
+			continue
+		}
 		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {
 			err = ErrUnsupportedContentEncoding
 			return
-- 
2.43.0


From 38cda834b4bc8e39e8ddf78da330a006b043b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 23/45] fix: evaluate open-ended ranges and features without
 numeric values

A missing limit was taken for 0, and a feature without numeric value matched
ranges starting at 0. See RFC2295 section 6.3.
---
 internal/header/feature_predicate.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 4e7f2ca..c4b0e09 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -18,6 +18,7 @@ package header
 import (
 	"errors"
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -267,15 +268,18 @@ func (w within) Evaluate(supported, unsupported FeatureSet) bool {
 		return false
 	}
 
+	// when not specified, the lower limit is 0 and the upper limit is infinity.
 	low, _ := strconv.Atoi(w.l.String())
 	high, _ := strconv.Atoi(w.h.String())
+	if w.h == "" {
+		high = math.MaxInt
+	}
 
 	// ensure that the highest numeric value for the feature in the set falls
 	// within the range inclusively.
-	var highest int
+	highest := -1
 	for _, val := range sValues {
-		if val.IsNumeric() && w.l.IsNumeric() && w.h.IsNumeric() {
-			num, _ := strconv.Atoi(val.String())
+		if num, err := strconv.Atoi(val.String()); err == nil && val.IsNumeric() {
 			if num > highest {
 				highest = num
 			}
-- 
2.43.0


From e24e02594bc3e5f87c3878402606d5091ebf6d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 24/45] fix: parse the value of feature equality expressions

The value of tag=value was only recognised when enclosed in braces.
---
 internal/header/feature_expression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index c735fb1..ad32f5a 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -160,6 +160,8 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 			), true
 			return
 		}
+		val, ok = FeatureTagValue(s[1]), true
+		return
 	}
 	return
 }
-- 
2.43.0


From b137735b9f93b7d16a82cd4147d8b0fa3126fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 25/45] fix: support improvement and degradation factors on
 feature predicate bags

Such an element was parsed as a single predicate, and therefore rejected.
---
 internal/header/feature_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_list.go b/internal/header/feature_list.go
index e87982a..50851f3 100644
--- a/internal/header/feature_list.go
+++ b/internal/header/feature_list.go
@@ -28,7 +28,7 @@ func NewFeatureList(features []string) (FeatureList, error) {
 	for _, feature := range features {
 		var le FeatureListElement
 		var err error
-		if strings.HasPrefix(feature, "[") && strings.HasSuffix(feature, "]") {
+		if strings.HasPrefix(feature, "[") && strings.HasSuffix(strings.Split(feature, ";")[0], "]") {
 			if le, err = NewPredicateBagListElement(feature); err != nil {
 				return list, err
 			}
-- 
2.43.0


From 7d28964fbbf026729b370ffa8df82aa8357df4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 26/45] fix: use the default port of the scheme when comparing
 URLs

https URLs without a port were compared using port 80, and the brackets of an
IPv6 address were dropped.
---
 transparent/transparent.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 94473e0..897bf4c 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -188,8 +188,10 @@ func (n Negotiator) Negotiate(
 	// https://tools.ietf.org/html/rfc2068#section-3.2.3
 	sameURL := func(one, two url.URL) bool {
 		normalizePort := func(u url.URL) url.URL {
-			if u.Port() == "" {
-				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)
+			if u.Port() == "" && strings.EqualFold(u.Scheme, "https") {
+				u.Host = fmt.Sprintf("%s:%d", strings.TrimSuffix(u.Host, ":"), 443)
+			} else if u.Port() == "" {
+				u.Host = fmt.Sprintf("%s:%d", strings.TrimSuffix(u.Host, ":"), 80)
 			}
 			return u
 		}
-- 
2.43.0


From ea7453d34f80990e2d795f15184f0d8947e234ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 27/45] fix: compare only the path up to its last slash when
 looking for neighbors

The query and fragment were compared as well, so that no variant was a
neighbor when the request has a query, and an encoded slash was taken for a
path delimiter.
---
 transparent/transparent.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 897bf4c..946cfab 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -228,9 +228,19 @@ func (n Negotiator) Negotiate(
 	// https://tools.ietf.org/html/rfc2296#section-3.5
 	isNeighbor := func(neighborURL, resourceURL url.URL) bool {
 		trim := func(u url.URL) url.URL {
+			// an encoded slash is data, it does not delimit path segments.
+			segments := strings.Split(u.EscapedPath(), "/")
+			for i, s := range segments {
+				if unescaped, err := url.PathUnescape(s); err == nil {
+					segments[i] = url.PathEscape(unescaped)
+				}
+			}
+			u.Path, u.RawPath = strings.Join(segments, "/"), ""
 			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
 				u.Path = u.Path[:lastSlash]
 			}
+			u.RawQuery, u.ForceQuery = "", false
+			u.Fragment, u.RawFragment = "", ""
 			return u
 		}
 		return sameURL(trim(neighborURL), trim(resourceURL))
-- 
2.43.0


From 1f4eb5580ad17bd9fea9b66a043612aa00c9f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 28/45] fix: disregard unsatisfiable headers when their strict
 mode is disabled

The algorithm eliminated every representation, so that a 406 response was
returned regardless of strict mode being disabled.
---
 proactive/proactive.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index 9a207cf..be0c39a 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -239,6 +239,23 @@ func (n Negotiator) Negotiate(
 		return err
 	}
 
+	// disregard the headers that failed without strict mode.
+	if rep == nil && (len(reps) == ac || len(reps) == alc || len(reps) == acc) {
+		r := ctx.Request.Clone(ctx.Request.Context())
+		if len(reps) == ac {
+			r.Header.Del("Accept")
+		}
+		if len(reps) == alc {
+			r.Header.Del("Accept-Language")
+		}
+		if len(reps) == acc {
+			r.Header.Del("Accept-Charset")
+		}
+		if rep, err = n.chooser.Choose(r, reps...); err != nil {
+			return err
+		}
+	}
+
 	if rep == nil {
 		return n.notAcceptable(ctx, reps...)
 	}
-- 
2.43.0


From 7e61187a0f161ced05f3417be0cf8b0f8e26f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 29/45] fix: replace response metadata that is already set

Values present in the response header, for example a default Content-Type set
by middleware, were kept next to, and ahead of, the ones that describe the
body.
---
 proactive/proactive.go     | 22 +++++++++++-----------
 reactive/reactive.go       | 10 +++++-----
 transparent/transparent.go | 30 +++++++++++++++---------------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index be0c39a..d4871d3 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -292,12 +292,12 @@ func (n Negotiator) acceptable(
 	if ctx.IsCreation {
 		status = http.StatusCreated
 	}
-	ctx.ResponseWriter.Header().Add("Content-Location", (&loc).String())
-	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
-	ctx.ResponseWriter.Header().Add("Content-Type", ct)
-	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
-	ctx.ResponseWriter.Header().Add("Content-Language", clang)
-	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
+	ctx.ResponseWriter.Header().Set("Content-Location", (&loc).String())
+	ctx.ResponseWriter.Header().Set("Content-Length", strconv.Itoa(clen))
+	ctx.ResponseWriter.Header().Set("Content-Type", ct)
+	ctx.ResponseWriter.Header().Set("Content-Encoding", ce)
+	ctx.ResponseWriter.Header().Set("Content-Language", clang)
+	ctx.ResponseWriter.Header().Set("Content-Charset", cc)
 	ctx.ResponseWriter.WriteHeader(status)
 	if _, err = ctx.ResponseWriter.Write(b); err == nil {
 		n.logger.Info("acceptable",
@@ -366,11 +366,11 @@ func (n Negotiator) notAcceptable(
 		cc     = chosen.ContentCharset()
 		status = http.StatusNotAcceptable
 	)
-	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
-	ctx.ResponseWriter.Header().Add("Content-Type", ct)
-	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
-	ctx.ResponseWriter.Header().Add("Content-Language", clang)
-	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
+	ctx.ResponseWriter.Header().Set("Content-Length", strconv.Itoa(clen))
+	ctx.ResponseWriter.Header().Set("Content-Type", ct)
+	ctx.ResponseWriter.Header().Set("Content-Encoding", ce)
+	ctx.ResponseWriter.Header().Set("Content-Language", clang)
+	ctx.ResponseWriter.Header().Set("Content-Charset", cc)
 	ctx.ResponseWriter.WriteHeader(status)
 	if _, err = ctx.ResponseWriter.Write(b); err == nil {
 		n.logger.Info("not acceptable",
diff --git a/reactive/reactive.go b/reactive/reactive.go
index b42058b..b2a79a9 100644
--- a/reactive/reactive.go
+++ b/reactive/reactive.go
@@ -127,11 +127,11 @@ func (n Negotiator) Negotiate(
 		cc     = rep.ContentCharset()
 		status = http.StatusMultipleChoices
 	)
-	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
-	ctx.ResponseWriter.Header().Add("Content-Type", ct)
-	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
-	ctx.ResponseWriter.Header().Add("Content-Language", clang)
-	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
+	ctx.ResponseWriter.Header().Set("Content-Length", strconv.Itoa(clen))
+	ctx.ResponseWriter.Header().Set("Content-Type", ct)
+	ctx.ResponseWriter.Header().Set("Content-Encoding", ce)
+	ctx.ResponseWriter.Header().Set("Content-Language", clang)
+	ctx.ResponseWriter.Header().Set("Content-Charset", cc)
 	ctx.ResponseWriter.WriteHeader(status)
 	if _, err = ctx.ResponseWriter.Write(b); err == nil {
 		n.logger.Info("multiple choices",
diff --git a/transparent/transparent.go b/transparent/transparent.go
index 946cfab..6633713 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -291,13 +291,13 @@ func (n Negotiator) listResponse(
 		tcn        = t.ValuesAsString()
 		status     = http.StatusMultipleChoices
 	)
-	ctx.ResponseWriter.Header().Add("Alternates", alternates)
-	ctx.ResponseWriter.Header().Add("TCN", tcn)
-	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
-	ctx.ResponseWriter.Header().Add("Content-Type", ct)
-	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
-	ctx.ResponseWriter.Header().Add("Content-Language", clang)
-	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
+	ctx.ResponseWriter.Header().Set("Alternates", alternates)
+	ctx.ResponseWriter.Header().Set("TCN", tcn)
+	ctx.ResponseWriter.Header().Set("Content-Length", strconv.Itoa(clen))
+	ctx.ResponseWriter.Header().Set("Content-Type", ct)
+	ctx.ResponseWriter.Header().Set("Content-Encoding", ce)
+	ctx.ResponseWriter.Header().Set("Content-Language", clang)
+	ctx.ResponseWriter.Header().Set("Content-Charset", cc)
 	ctx.ResponseWriter.WriteHeader(status)
 	if _, err = ctx.ResponseWriter.Write(b); err == nil {
 		n.logger.Info("list response",
@@ -354,14 +354,14 @@ func (n Negotiator) choiceResponse(
 		loc        = rep.ContentLocation()
 		status     = http.StatusOK
 	)
-	ctx.ResponseWriter.Header().Add("Alternates", alternates)
-	ctx.ResponseWriter.Header().Add("TCN", tcn)
-	ctx.ResponseWriter.Header().Add("Content-Location", (&loc).String())
-	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
-	ctx.ResponseWriter.Header().Add("Content-Type", ct)
-	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
-	ctx.ResponseWriter.Header().Add("Content-Language", clang)
-	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
+	ctx.ResponseWriter.Header().Set("Alternates", alternates)
+	ctx.ResponseWriter.Header().Set("TCN", tcn)
+	ctx.ResponseWriter.Header().Set("Content-Location", (&loc).String())
+	ctx.ResponseWriter.Header().Set("Content-Length", strconv.Itoa(clen))
+	ctx.ResponseWriter.Header().Set("Content-Type", ct)
+	ctx.ResponseWriter.Header().Set("Content-Encoding", ce)
+	ctx.ResponseWriter.Header().Set("Content-Language", clang)
+	ctx.ResponseWriter.Header().Set("Content-Charset", cc)
 	ctx.ResponseWriter.WriteHeader(status)
 	if _, err = ctx.ResponseWriter.Write(b); err == nil {
 		n.logger.Info("choice response",
-- 
2.43.0


From 862556fda86104b7f350562540a234df78796b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 30/45] fix: serialize each representation once when comparing
 content lengths

---
 proactive/apache_httpd.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index ef262ff..ee155b0 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -133,30 +133,26 @@ func (c httpd) Choose(
 var (
 	// smallestContentLength selects the variants with the smallest content length.
 	smallestContentLength filter = func(variants representation.Set) (representation.Set, error) {
-		variants.Sort(func(i, j int) bool {
-			// sort smallest to largest.
-			var f, s int
-			if bytes, err := variants[i].Bytes(); err == nil {
-				f = len(bytes)
+		// serialize each variant once, the outcome might differ between attempts.
+		var (
+			smallest representation.Set
+			lowest   int
+		)
+		for _, v := range variants {
+			bytes, err := v.Bytes()
+			if err != nil {
+				return representation.EmptySet, err
 			}
-			if bytes, err := variants[j].Bytes(); err == nil {
-				s = len(bytes)
+			length := len(bytes)
+			if !smallest.Empty() && length > lowest {
+				continue
 			}
-			return f < s
-		})
-		lowest := variants.First()
-		lowestBytes, err := lowest.Bytes()
-		if err != nil {
-			return representation.EmptySet, err
-		}
-		lowestLength := len(lowestBytes)
-		return variants.Where(func(v representation.RankedRepresentation) bool {
-			var length int
-			if bytes, err := v.Bytes(); err == nil {
-				length = len(bytes)
+			if smallest.Empty() || length < lowest {
+				smallest, lowest = nil, length
 			}
-			return length == lowestLength
-		}), nil
+			smallest = append(smallest, v)
+		}
+		return smallest, nil
 	}
 
 	// bestEncoding selects the variants with the best encoding.
-- 
2.43.0


From c281f5877ad0f292e520009289cb9bff647e176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 31/45] fix: keep every value of a feature tag in a feature set

Adding values for a tag that was already present duplicated the existing
values and dropped the new ones, so 'dpi=72, dpi=300' lost dpi=300.
---
 internal/header/feature_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_set.go b/internal/header/feature_set.go
index 19f86e3..d0358e2 100644
--- a/internal/header/feature_set.go
+++ b/internal/header/feature_set.go
@@ -32,7 +32,7 @@ func (s FeatureSet) Add(tag FeatureTag, values ...FeatureTagValue) {
 		s[tag] = values
 		return
 	}
-	for t, values := range s {
+	for t := range s {
 		if t.Equals(tag) {
 			s[t] = append(s[t], values...)
 		}
-- 
2.43.0


From 0299d54e1798f7b9f3b0c3e3ccfe5e390daca432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 32/45] fix: verify the checksum of every content coding when
 decoding

Decoding stopped as soon as the innermost coding ended. For 'deflate, gzip'
the gzip trailer was never read, and corrupt input was accepted silently.
---
 representation/base.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index a78d1b0..050baa4 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -246,8 +246,9 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 	var (
 		buf                              = bytes.NewBuffer(b)
 		reader             io.ReadCloser = &closeableBuffer{buf}
-		encodings                        = r.ContentEncoding()
-		readerConstructors               = defaultEncodingReaders
+		readers            []io.Reader
+		encodings          = r.ContentEncoding()
+		readerConstructors = defaultEncodingReaders
 	)
 
 	if len(r.encodingReaders) > 0 {
@@ -266,6 +267,7 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 		if reader, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
 			return
 		}
+		readers = append(readers, reader)
 		defer func(reader io.ReadCloser) {
 			if closeErr := reader.Close(); err == nil {
 				err = closeErr
@@ -275,6 +277,14 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 	if bb, err = io.ReadAll(reader); err != nil {
 		return
 	}
+
+	// a coding can end ahead of the one that is applied to it, whose checksum
+	// is only verified once it is read completely.
+	for idx := len(readers) - 1; idx >= 0; idx-- {
+		if _, err = io.Copy(io.Discard, readers[idx]); err != nil {
+			return nil, err
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 262e3d8116fd8263d54bf230e9ed9b9126772441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 33/45] fix: reject language ranges with a negative weight

---
 internal/header/accept_language.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index a3fc28c..38ba010 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -18,6 +18,7 @@ package header
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"golang.org/x/text/language"
@@ -76,6 +77,15 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 		if len(kept) > 0 {
 			continue
 		}
+		if i := strings.LastIndex(entry, "="); i >= 0 {
+			w, err := strconv.ParseFloat(strings.TrimSpace(entry[i+1:]), 32)
+			if err != nil {
+				return EmptyAcceptLanguage, err
+			}
+			if _, err = NewQualityValue(float32(w)); err != nil {
+				return EmptyAcceptLanguage, err
+			}
+		}
 		tags, _, err = language.ParseAcceptLanguage(strings.Split(entry, ";")[0])
 		if err != nil {
 			return EmptyAcceptLanguage, err
-- 
2.43.0


From 0652caa92d800bf0497ac28fc656f7e051eb5b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 34/45] fix: disregard whitespace around a header with a single
 element

---
 internal/header/field_value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/header/field_value.go b/internal/header/field_value.go
index 19065b3..7194cec 100644
--- a/internal/header/field_value.go
+++ b/internal/header/field_value.go
@@ -18,14 +18,14 @@ package header
 import "strings"
 
 // splitFieldValues expands field values containing comma-separated lists into
-// the individual list elements. A field value without a list is left as is.
+// the individual list elements. A field value without a list is only trimmed.
 //
 // https://tools.ietf.org/html/rfc7230#section-7
 func splitFieldValues(values []string) []string {
 	var elements []string
 	for _, value := range values {
 		if !strings.Contains(value, ",") {
-			elements = append(elements, value)
+			elements = append(elements, strings.Trim(value, " \t"))
 			continue
 		}
 		var (
-- 
2.43.0


From e699f3c78ad08b4b3009982b84986256cda22947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 35/45] fix: let the wildcard match languages without a known
 tag

---
 internal/header/language_range.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index ee59e12..f25d942 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -105,13 +105,13 @@ func (lr LanguageRange) QualityValue() QualityValue {
 // Compatible determines if the provided language tag is compatible with
 // the language range.
 func (lr LanguageRange) Compatible(tag string) bool {
+	if lr.IsWildcard() {
+		return true
+	}
 	_, err := language.Parse(tag)
 	if err != nil {
 		return false
 	}
-	if lr.IsWildcard() {
-		return true
-	}
 	m := language.NewMatcher([]language.Tag{language.Und, lr.tag})
 	// _, i, _ := m.Match(t)
 	_, i := language.MatchStrings(m, tag)
-- 
2.43.0


From 1565b3267fb0f7b8f39e04465c9f302cf2fbedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 36/45] fix: let the wildcard match content codings that are
 not known

---
 internal/header/content_coding_range.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index d376acc..1158086 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -127,12 +127,12 @@ func (cc ContentCodingRange) CodingRange() string {
 // Compatible determines if the provided content coding is compatible with the
 // content coding range.
 func (cc ContentCodingRange) Compatible(coding string) bool {
-	if !slice.ContainsString(contentCodings, strings.ToLower(coding)) {
-		return false
-	}
 	if cc.IsWildcard() {
 		return true
 	}
+	if !slice.ContainsString(contentCodings, strings.ToLower(coding)) {
+		return false
+	}
 	return strings.EqualFold(cc.CodingRange(), coding)
 }
 
-- 
2.43.0


From 8dd96a2b0ae41529c4db6d33866077607405cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 37/45] fix: accept hyphens, dots and plus signs in feature
 tags and values

---
 internal/header/feature_predicate.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index c4b0e09..82eb027 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -26,11 +26,11 @@ import (
 
 // Regular expressions to match against the feature predicate grammar.
 var (
-	existsPredicate    = regexp.MustCompile(`^(\w+)$`)
-	absentPredicate    = regexp.MustCompile(`^(!(\w+))$`)
-	equalsPredicate    = regexp.MustCompile(`^(\w+)\s?=\s?(\w+)$`)
-	notEqualsPredicate = regexp.MustCompile(`^(\w+)\s?!=\s?(\w+)$`)
-	rangePredicate     = regexp.MustCompile(`^(\w+)\s?=\s?\[\s?(\d+)?\s?-\s?(\d+)?\s?\]$`)
+	existsPredicate    = regexp.MustCompile(`^([\w.+-]+)$`)
+	absentPredicate    = regexp.MustCompile(`^(!([\w.+-]+))$`)
+	equalsPredicate    = regexp.MustCompile(`^([\w.+-]+)\s?=\s?([\w.+-]+)$`)
+	notEqualsPredicate = regexp.MustCompile(`^([\w.+-]+)\s?!=\s?([\w.+-]+)$`)
+	rangePredicate     = regexp.MustCompile(`^([\w.+-]+)\s?=\s?\[\s?(\d+)?\s?-\s?(\d+)?\s?\]$`)
 )
 
 // Errors that can be encountered when interacting with feature predicates.
-- 
2.43.0


From adee8fa26bf1fd069a5f39a10767cb469f3d084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 38/45] fix: allow any whitespace between the predicates of a
 bag

---
 internal/header/feature_predicate.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 82eb027..ee96c39 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -56,9 +56,11 @@ func NewFeaturePredicateBag(predicateBag string) (FeaturePredicateBag, error) {
 	if openCount != closeCount {
 		return nil, ErrInvalidPredicateBag
 	}
-	predicateBag = strings.TrimSpace(
+	predicates := strings.Fields(
 		strings.TrimPrefix(strings.TrimSuffix(predicateBag, "]"), "["))
-	predicates := strings.Split(predicateBag, " ")
+	if len(predicates) == 0 {
+		return nil, ErrInvalidPredicate
+	}
 
 	var fpb FeaturePredicateBag
 	for _, predicate := range predicates {
-- 
2.43.0


From e7cce63d1e79c6cc9274d9938fc68d336c61ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 39/45] fix: serialize content types with whitespace ahead of
 the parameters

---
 representation/base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index 050baa4..324e8d5 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -156,7 +156,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		marshallers = r.marshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := marshallers[strings.ToLower(ct)]; !ok {
 		return []byte{}, ErrUnsupportedContentType
 	}
@@ -224,7 +224,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 		unmarshallers = r.unmarshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := unmarshallers[strings.ToLower(ct)]; !ok {
 		err = ErrUnsupportedContentType
 		return
-- 
2.43.0


From 618882fcdd2ba8939ea72b6f701d6e798df5b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 40/45] fix: disregard empty field lines next to other ones

---
 internal/header/field_value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/header/field_value.go b/internal/header/field_value.go
index 7194cec..9df181f 100644
--- a/internal/header/field_value.go
+++ b/internal/header/field_value.go
@@ -25,7 +25,10 @@ func splitFieldValues(values []string) []string {
 	var elements []string
 	for _, value := range values {
 		if !strings.Contains(value, ",") {
-			elements = append(elements, strings.Trim(value, " \t"))
+			// lines without an element are only relevant when there is no other.
+			if e := strings.Trim(value, " \t"); e != "" || len(values) == 1 {
+				elements = append(elements, e)
+			}
 			continue
 		}
 		var (
-- 
2.43.0


From 6963e97341824bd8a4cac75de31267cd0afd83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 41/45] fix: tell an empty path segment apart from the root
 when comparing neighbors

---
 transparent/transparent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 6633713..9119c55 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -237,7 +237,7 @@ func (n Negotiator) Negotiate(
 			}
 			u.Path, u.RawPath = strings.Join(segments, "/"), ""
 			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
-				u.Path = u.Path[:lastSlash]
+				u.Path = u.Path[:lastSlash+1]
 			}
 			u.RawQuery, u.ForceQuery = "", false
 			u.Fragment, u.RawFragment = "", ""
-- 
2.43.0


From a702953e877dd377db2c4f61202f22c7d26e0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 42/45] fix: accept factors that end with the decimal point

---
 internal/header/feature_list_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_list_element.go b/internal/header/feature_list_element.go
index bd95e38..52392ac 100644
--- a/internal/header/feature_list_element.go
+++ b/internal/header/feature_list_element.go
@@ -25,7 +25,7 @@ import (
 
 // Regular expressions to match against the feature list grammar.
 var (
-	improvementDegration = regexp.MustCompile(`^(\+(\d+(\.\d{1,4})?))?(\-(\d+(\.\d{1,4})?))?$`)
+	improvementDegration = regexp.MustCompile(`^(\+(\d+(\.\d{0,4})?))?(\-(\d+(\.\d{0,4})?))?$`)
 )
 
 var ErrInvalidPredicateListElement = errors.New("invalid predicate list element")
-- 
2.43.0


From e17527be9d435c32f4fd42dce08e774dfd89c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:34 +0000
Subject: [PATCH 43/45] fix: compare numeric feature tag values of any number
 of digits

---
 internal/header/feature_predicate.go | 32 +++++++++++++++-------------
 internal/header/feature_tag.go       | 10 +++++++++
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index ee96c39..eb0f6f6 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -18,9 +18,8 @@ package header
 import (
 	"errors"
 	"fmt"
-	"math"
+	"math/big"
 	"regexp"
-	"strconv"
 	"strings"
 )
 
@@ -270,24 +269,27 @@ func (w within) Evaluate(supported, unsupported FeatureSet) bool {
 		return false
 	}
 
-	// when not specified, the lower limit is 0 and the upper limit is infinity.
-	low, _ := strconv.Atoi(w.l.String())
-	high, _ := strconv.Atoi(w.h.String())
-	if w.h == "" {
-		high = math.MaxInt
-	}
-
 	// ensure that the highest numeric value for the feature in the set falls
 	// within the range inclusively.
-	highest := -1
+	var highest *big.Int
 	for _, val := range sValues {
-		if num, err := strconv.Atoi(val.String()); err == nil && val.IsNumeric() {
-			if num > highest {
-				highest = num
-			}
+		num, ok := val.number()
+		if ok && (highest == nil || num.Cmp(highest) > 0) {
+			highest = num
 		}
 	}
-	return highest >= low && highest <= high
+	if highest == nil {
+		return false
+	}
+
+	// when not specified, the lower limit is 0 and the upper limit is infinity.
+	if low, ok := w.l.number(); ok && highest.Cmp(low) < 0 {
+		return false
+	}
+	if high, ok := w.h.number(); ok && highest.Cmp(high) > 0 {
+		return false
+	}
+	return true
 }
 
 // String provides the textual representation of the predicate.
diff --git a/internal/header/feature_tag.go b/internal/header/feature_tag.go
index 98d9d8b..9d4fafb 100644
--- a/internal/header/feature_tag.go
+++ b/internal/header/feature_tag.go
@@ -16,6 +16,7 @@
 package header
 
 import (
+	"math/big"
 	"strconv"
 	"strings"
 )
@@ -104,6 +105,15 @@ func (t FeatureTagValue) IsNumeric() bool {
 	return err == nil
 }
 
+// number provides the number that the feature tag value consists of, if any.
+// There is no bound for the number of digits.
+func (t FeatureTagValue) number() (*big.Int, bool) {
+	if t == "" || strings.Trim(t.String(), "0123456789") != "" {
+		return nil, false
+	}
+	return new(big.Int).SetString(t.String(), 10)
+}
+
 // String provides the textual representation of the feature tag value.
 func (t FeatureTagValue) String() string {
 	return string(t)
-- 
2.43.0


From 9e91115668dcccfac4ed9e96ce41fbd21fa47d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 44/45] fix: accept whitespace within the feature expressions
 of Accept-Features

---
 internal/header/feature_expression.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index ad32f5a..b11e609 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -125,13 +125,13 @@ func (e FeatureExpression) Type() FeatureExpressionType {
 // wildcard expressions do not have tags.
 func (e FeatureExpression) parseTag() FeatureTag {
 	if strings.HasPrefix(e.String(), "!") {
-		return FeatureTag(strings.TrimLeft(e.String(), "!"))
+		return FeatureTag(strings.TrimSpace(strings.TrimLeft(e.String(), "!")))
 	}
 	if s := strings.Split(e.String(), "!="); len(s) > 1 {
-		return FeatureTag(s[0])
+		return FeatureTag(strings.TrimSpace(s[0]))
 	}
 	if s := strings.Split(e.String(), "="); len(s) > 1 {
-		return FeatureTag(s[0])
+		return FeatureTag(strings.TrimSpace(s[0]))
 	}
 	return FeatureTag(e.String())
 }
@@ -145,22 +145,25 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 	}
 	// check for inequality ( != ).
 	if s := strings.Split(e.String(), "!="); len(s) > 1 {
-		val, ok = FeatureTagValue(s[1]), true
+		val, ok = FeatureTagValue(strings.TrimSpace(s[1])), true
 		return
 	}
 	// check for equality ( = ).
 	if s := strings.Split(e.String(), "="); len(s) > 1 {
 		// check for exclusive equality ( {...} ).
-		if strings.HasPrefix(s[1], "{") &&
-			strings.HasSuffix(s[1], "}") {
+		v := strings.TrimSpace(s[1])
+		if strings.HasPrefix(v, "{") &&
+			strings.HasSuffix(v, "}") {
 			val, ok = FeatureTagValue(
-				strings.ReplaceAll(
-					strings.ReplaceAll(s[1], "}", ""), "{", "",
+				strings.TrimSpace(
+					strings.ReplaceAll(
+						strings.ReplaceAll(v, "}", ""), "{", "",
+					),
 				),
 			), true
 			return
 		}
-		val, ok = FeatureTagValue(s[1]), true
+		val, ok = FeatureTagValue(v), true
 		return
 	}
 	return
-- 
2.43.0


From 9fd166e8bd11671ed983c77f52d023e5b5d0d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 45/45] fix: read lists without mixing in previous
 representations

---
 representation/list.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/representation/list.go b/representation/list.go
index 415975c..c166b33 100644
--- a/representation/list.go
+++ b/representation/list.go
@@ -58,5 +58,7 @@ func (l List) Bytes() ([]byte, error) {
 
 // FromBytes constructs the list representation from its serialized form.
 func (l *List) FromBytes(b []byte) error {
+	// unmarshallers add to the representations and merge with existing ones.
+	l.Representations = nil
 	return l.Base.FromBytes(b, l)
 }
-- 
2.43.0

