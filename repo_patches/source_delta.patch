From 86663e07a25c35d40cac347a3a41c44ba37095a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 01/12] fix: strict grouping check no longer panics on a
 candidate shorter than the country code

---
 phonenumbermatcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phonenumbermatcher.go b/phonenumbermatcher.go
index 73ad4f5..f6d9f7f 100644
--- a/phonenumbermatcher.go
+++ b/phonenumbermatcher.go
@@ -380,6 +380,10 @@ func allNumberGroupsRemainGrouped(
 		// First skip the country code if the normalized candidate contained it.
 		countryCode := strconv.Itoa(int(number.GetCountryCode()))
 		fromIndex = strings.Index(normalizedCandidate, countryCode) + len(countryCode)
+		if fromIndex > len(normalizedCandidate) {
+			// The candidate is too short to contain the country code at all.
+			return false
+		}
 	}
 	// Check each group of consecutive digits is not broken into separate
 	// groupings in the normalizedCandidate string.
-- 
2.43.0


From 964f4481ecd9a5d59cdf5dc8e0e5560906bb6057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:04 +0000
Subject: [PATCH 02/12] fix: number grouping no longer panics when the text has
 a semicolon before the first dash

---
 phonenumbermatcher.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/phonenumbermatcher.go b/phonenumbermatcher.go
index f6d9f7f..e9ca690 100644
--- a/phonenumbermatcher.go
+++ b/phonenumbermatcher.go
@@ -315,14 +315,13 @@ func (m *phoneNumberMatcher) parseAndVerify(candidate string, offset int) *Phone
 func getNationalNumberGroups(number *PhoneNumber) []string {
 	// This will be in the format +CC-DG1-DG2-DGX;ext=EXT.
 	rfc3966Format := Format(number, RFC3966)
+	// The country code is followed by a '-'.
+	nationalPart := rfc3966Format[strings.IndexByte(rfc3966Format, '-')+1:]
 	// Remove the extension part before splitting into groups.
-	endIndex := strings.IndexByte(rfc3966Format, ';')
-	if endIndex < 0 {
-		endIndex = len(rfc3966Format)
+	if endIndex := strings.IndexByte(nationalPart, ';'); endIndex >= 0 {
+		nationalPart = nationalPart[:endIndex]
 	}
-	// The country code is followed by a '-'.
-	startIndex := strings.IndexByte(rfc3966Format, '-') + 1
-	return strings.Split(rfc3966Format[startIndex:endIndex], "-")
+	return strings.Split(nationalPart, "-")
 }
 
 // getNationalNumberGroupsWithPattern returns the national-number digit blocks
-- 
2.43.0


From e63113b395745d08e85ede12adce406a5c7b7a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:05 +0000
Subject: [PATCH 03/12] fix: parsing into a reused PhoneNumber no longer keeps
 fields of the previous number

---
 phonenumberutil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 621e61c..3ff9a30 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -2727,6 +2727,9 @@ func parseHelper(
 	numberToParse, defaultRegion string,
 	keepRawInput, checkRegion bool,
 	phoneNumber *PhoneNumber) error {
+	// The caller may be reusing a message: nothing of a previously parsed number may remain in it.
+	proto.Reset(phoneNumber)
+
 	if len(numberToParse) == 0 {
 		return ErrNotANumber
 	} else if len(numberToParse) > maxInputStringLength {
-- 
2.43.0


From 8fe7b3f16cf9a8090869e3e29342a8eaed43a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 04/12] fix: a "$" in a carrier code is no longer expanded as a
 formatting template

---
 phonenumberutil.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 3ff9a30..d1f678b 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -1610,7 +1610,9 @@ func formatNsnUsingPatternWithCarrier(
 				func(s string) string {
 					if i > 0 {
 						i -= 1
-						return carrierCode
+						// The rule is expanded as a template twice below: keep any
+						// "$" of the caller's carrier code literal.
+						return strings.ReplaceAll(carrierCode, "$", "$$$$")
 					}
 					return s
 				})
-- 
2.43.0


From a353ac55c53d88502c1cc5a772925e35170d40f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 05/12] fix: region and calling code listings no longer hand
 out the library's own maps and slices

---
 phonenumberutil.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index d1f678b..2e8dad4 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -4,8 +4,10 @@ package phonenumbers
 import (
 	"errors"
 	"iter"
+	"maps"
 	"math"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"unicode"
@@ -702,7 +704,7 @@ func normalizeHelper(number string,
 
 // GetSupportedRegions returns all regions the library has metadata for.
 func GetSupportedRegions() map[string]bool {
-	return metadata.SupportedRegions()
+	return maps.Clone(metadata.SupportedRegions())
 }
 
 // GetSupportedCallingCodes returns all country calling codes the library has metadata for, covering both non-geographical
@@ -710,12 +712,12 @@ func GetSupportedRegions() map[string]bool {
 // used to populate a drop-down box of country calling codes for a phone-number widget, for
 // instance.
 func GetSupportedCallingCodes() map[int]bool {
-	return metadata.SupportedCallingCodes()
+	return maps.Clone(metadata.SupportedCallingCodes())
 }
 
 // GetSupportedGlobalNetworkCallingCodes returns all global network calling codes the library has metadata for.
 func GetSupportedGlobalNetworkCallingCodes() map[int]bool {
-	return metadata.CountryCodesForNonGeographicalRegion()
+	return maps.Clone(metadata.CountryCodesForNonGeographicalRegion())
 }
 
 // allPhoneNumberTypes lists every PhoneNumberType, used to iterate types like
@@ -2028,7 +2030,7 @@ func GetRegionCodeForCountryCode(countryCallingCode int) string {
 // an empty list is returned.
 func GetRegionCodesForCountryCode(countryCallingCode int) []string {
 	var regionCodes []string = metadata.CountryCodeToRegion()[countryCallingCode]
-	return regionCodes
+	return slices.Clone(regionCodes)
 }
 
 // Returns the country calling code for a specific region. For example, this
-- 
2.43.0


From ababa4b9ec37e21db53e18e00142f524b77860b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 06/12] fix: time zone lookups no longer hand out the library's
 own slices

---
 timezone/timezone.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timezone/timezone.go b/timezone/timezone.go
index d9e782c..29a21b0 100644
--- a/timezone/timezone.go
+++ b/timezone/timezone.go
@@ -4,6 +4,7 @@ package timezone
 import (
 	_ "embed"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -79,7 +80,7 @@ func lookupTimeZones(number string) ([]string, error) {
 		}
 		tzs, found := timezoneMap.Map[index]
 		if found {
-			return tzs, nil
+			return slices.Clone(tzs), nil
 		}
 	}
 	return []string{Unknown}, nil
-- 
2.43.0


From e09b4d3ff0e4eec1a9add55d1eabfe849d1bc1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 07/12] fix: metadata collections are returned as copies of the
 library's own metadata

---
 phonemetadata.go   | 13 +++++++++++--
 shortnumberinfo.go |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/phonemetadata.go b/phonemetadata.go
index 7916ca7..d4b4917 100644
--- a/phonemetadata.go
+++ b/phonemetadata.go
@@ -1,6 +1,9 @@
 package phonenumbers
 
-import "github.com/nyaruka/phonenumbers/v2/metadata"
+import (
+	"github.com/nyaruka/phonenumbers/v2/metadata"
+	"google.golang.org/protobuf/proto"
+)
 
 // The metadata value types from upstream's Phonemetadata. Go's import-cycle rule
 // forces their definitions into the metadata package (its loader returns them and
@@ -19,4 +22,10 @@ type (
 )
 
 // MetadataCollection returns the embedded territory metadata collection.
-func MetadataCollection() (*PhoneMetadataCollection, error) { return metadata.Collection() }
+func MetadataCollection() (*PhoneMetadataCollection, error) {
+	collection, err := metadata.Collection()
+	if err != nil {
+		return nil, err
+	}
+	return proto.CloneOf(collection), nil
+}
diff --git a/shortnumberinfo.go b/shortnumberinfo.go
index a751908..707d7c6 100644
--- a/shortnumberinfo.go
+++ b/shortnumberinfo.go
@@ -36,7 +36,7 @@ var (
 
 func ShortNumberMetadataCollection() (*PhoneMetadataCollection, error) {
 	if !shortNumberReloadMetadata {
-		return currShortNumberMetadataColl, nil
+		return proto.CloneOf(currShortNumberMetadataColl), nil
 	}
 
 	rawBytes, err := serialize.DecodeUnzip(shortNumberData)
-- 
2.43.0


From c74652f03d33d97500c3a80d6bc902158d8bfec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 08/12] fix: looking up names in unknown languages no longer
 grows the language cache without bound

---
 internal/prefixmapper/prefixmapper.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/prefixmapper/prefixmapper.go b/internal/prefixmapper/prefixmapper.go
index 8162bec..4528ef4 100644
--- a/internal/prefixmapper/prefixmapper.go
+++ b/internal/prefixmapper/prefixmapper.go
@@ -57,11 +57,10 @@ func (m *Mapper) lazyLoadPrefixes(language string) (*serialize.IntStringMap, err
 			return nil, err
 		}
 		m.langMap[language] = prefixes
-	} else {
-		m.langMap[language] = nil // language doesn't have data
 	}
+	// A language without data is not remembered: callers choose the language, so the map would grow without bound.
 
-	return m.langMap[language], nil
+	return prefixes, nil
 }
 
 // ValueForNumber returns the value mapped to the longest matching prefix of the
-- 
2.43.0


From a1e469417891b767c77a07f1f88496a0af1d2912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 09/12] fix: the example number for a type is no longer picked
 at random

---
 phonenumberutil.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 2e8dad4..e21a3ea 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -1727,14 +1727,14 @@ func GetExampleNumberForTypeInRegion(regionCode string, typ PhoneNumberType) *Ph
 // Gets a valid number for the specified number type (it may belong to any
 // country).
 func GetExampleNumberForType(typ PhoneNumberType) *PhoneNumber {
-	for regionCode := range GetSupportedRegions() {
+	for _, regionCode := range slices.Sorted(maps.Keys(GetSupportedRegions())) {
 		exampleNumber := GetExampleNumberForTypeInRegion(regionCode, typ)
 		if exampleNumber != nil {
 			return exampleNumber
 		}
 	}
 	// If there wasn't an example number for a region, try the non-geographical entities.
-	for countryCallingCode := range GetSupportedGlobalNetworkCallingCodes() {
+	for _, countryCallingCode := range slices.Sorted(maps.Keys(GetSupportedGlobalNetworkCallingCodes())) {
 		desc := getNumberDescByType(getMetadataForNonGeographicalRegion(countryCallingCode), typ)
 		if exNum := desc.GetExampleNumber(); len(exNum) > 0 {
 			num, err := Parse("+"+strconv.Itoa(countryCallingCode)+exNum, unknownRegion)
-- 
2.43.0


From 84a9b892343c0a6871817883ac6a15a049f78064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:49 +0000
Subject: [PATCH 10/12] fix: the metadata builder reports values it cannot
 represent instead of truncating them

---
 cmd/buildmetadata/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index 65d1ca0..69fbc0c 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -420,6 +420,9 @@ func renderMap(prefixMap map[int][]string) ([]byte, error) {
 	}
 	sort.Strings(values)
 	sort.Ints(keys)
+	if len(values) > math.MaxUint16 {
+		return nil, fmt.Errorf("too many values to represent in uint16")
+	}
 
 	internMap := make(map[string]int, len(values))
 	for i, v := range values {
@@ -458,6 +461,9 @@ func renderMap(prefixMap map[int][]string) ([]byte, error) {
 		values := prefixMap[key]
 
 		// write our number of values
+		if len(values) > math.MaxUint8 {
+			return nil, fmt.Errorf("too many values for key %d to represent in uint8", key)
+		}
 		if err := binary.Write(data, binary.LittleEndian, uint8(len(values))); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From cca6781892ede734c74dd4f3dc25a0b263265113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:00 +0000
Subject: [PATCH 11/12] fix: geocoding of numbers for languages without country
 names no longer panics

---
 geocoding/geocoding.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geocoding/geocoding.go b/geocoding/geocoding.go
index f986de1..530e6cf 100644
--- a/geocoding/geocoding.go
+++ b/geocoding/geocoding.go
@@ -131,5 +131,9 @@ func regionDisplayName(regionCode, lang string) string {
 	if err != nil {
 		langT = language.English // fall back to english only for rendering the country name
 	}
-	return display.Regions(langT).Name(reg)
+	namer := display.Regions(langT)
+	if namer == nil {
+		namer = display.English.Regions() // no country names in that language
+	}
+	return namer.Name(reg)
 }
-- 
2.43.0


From 3b88df93384bd49f903fc5b822ee22ff7f9886b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 12/12] fix: merging a number format into itself ends

---
 metadata/metadata_util.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metadata/metadata_util.go b/metadata/metadata_util.go
index 40f93e6..ed89ac8 100644
--- a/metadata/metadata_util.go
+++ b/metadata/metadata_util.go
@@ -13,9 +13,7 @@ func (nf *NumberFormat) Merge(other *NumberFormat) {
 	if other.Format != nil {
 		nf.Format = other.Format
 	}
-	for i := 0; i < len(other.LeadingDigitsPattern); i++ {
-		nf.LeadingDigitsPattern = append(nf.LeadingDigitsPattern, other.LeadingDigitsPattern[i])
-	}
+	nf.LeadingDigitsPattern = append(nf.LeadingDigitsPattern, other.LeadingDigitsPattern...)
 	if other.NationalPrefixFormattingRule != nil {
 		nf.NationalPrefixFormattingRule = other.NationalPrefixFormattingRule
 	}
-- 
2.43.0

