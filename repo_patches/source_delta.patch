From ef2e52550bb298a2c7bb9eeb97574f5649e520a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:17 +0000
Subject: [PATCH 01/39] fix: group the alternatives of the season pattern

Without the group the anchors only bound one alternative each, so any string
starting with YYYY-MM (e.g. 2004-06~ or 1985-04-12/..) was parsed as a season,
and the case-insensitive flag leaked in to the level 1 patterns that follow it.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index d377452..a0933b9 100644
--- a/re/re.go
+++ b/re/re.go
@@ -36,7 +36,7 @@ const PATTERN_TIME_INTERVAL string = PATTERN_DATE + `/` + PATTERN_DATE
 
 const PATTERN_LETTER_PREFIXED_CALENDAR_YEAR string = `Y(\-?\d+)`
 
-const PATTERN_SEASON string = PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i)(spring|summer|fall|winter)\s*,\s*(\d{4})`
+const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i:(spring|summer|fall|winter))\s*,\s*(\d{4}))`
 
 const PATTERN_QUALIFIED_DATE string = PATTERN_DATE + `(\?|~|%)`
 
-- 
2.43.0


From 4455653a79a794b472c293aae659138fc78d831a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:19 +0000
Subject: [PATCH 02/39] fix: anchor the level 2 pattern at the end of the
 string

IsLevel2 (and so parser.IsValid) accepted any string with a valid level 2
prefix. Scope the case-insensitive flag of the exponential year pattern too.
---
 re/level2.go | 2 +-
 re/re.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/re/level2.go b/re/level2.go
index 5a6e561..e61f3b8 100644
--- a/re/level2.go
+++ b/re/level2.go
@@ -45,5 +45,5 @@ func init() {
 		PATTERN_INTERVAL,
 	}
 
-	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)`)
+	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)$`)
 }
diff --git a/re/re.go b/re/re.go
index a0933b9..c6a65f5 100644
--- a/re/re.go
+++ b/re/re.go
@@ -50,7 +50,7 @@ const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
 
 // Level 2
 
-const PATTERN_EXPONENTIAL_YEAR string = `(?i)Y(\-?\d+E\d+)`
+const PATTERN_EXPONENTIAL_YEAR string = `(?i:Y(\-?\d+E\d+))`
 
 const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_LETTER_PREFIXED_CALENDAR_YEAR + `|` + PATTERN_EXPONENTIAL_YEAR + `)S(\d+)`
 
-- 
2.43.0


From 0c44164da05bf6a688688e839694187f4f1f80d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:47 +0000
Subject: [PATCH 03/39] fix: zero-pad BCE years when deriving the dates of a
 season

%04d counts the minus sign, so the seasons of -0999 to -0001 were rejected.
---
 common/year.go   | 11 +++++++++++
 level1/season.go |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/common/year.go b/common/year.go
index 16e8463..e5d44b9 100644
--- a/common/year.go
+++ b/common/year.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"fmt"
 	"time"
 )
 
@@ -11,3 +12,13 @@ func FlipYear(yyyy int) int {
 func TimeToBCE(t time.Time) time.Time {
 	return t.AddDate(-2*t.Year(), 0, 0)
 }
+
+// StringYear returns the four-digit EDTF representation of 'yyyy', preceded by a minus sign for BCE years.
+func StringYear(yyyy int) string {
+
+	if yyyy < 0 {
+		return fmt.Sprintf("-%04d", FlipYear(yyyy))
+	}
+
+	return fmt.Sprintf("%04d", yyyy)
+}
diff --git a/level1/season.go b/level1/season.go
index e8b3cf7..21c7bdd 100644
--- a/level1/season.go
+++ b/level1/season.go
@@ -173,7 +173,7 @@ func ParseSeason(edtf_str string) (*edtf.EDTFDate, error) {
 
 	end_dd = dm
 
-	_str := fmt.Sprintf("%04d-%02d-%02d/%04d-%02d-%02d", start_yyyy, start_mm, start_dd, end_yyyy, end_mm, end_dd)
+	_str := fmt.Sprintf("%s-%02d-%02d/%s-%02d-%02d", common.StringYear(start_yyyy), start_mm, start_dd, common.StringYear(end_yyyy), end_mm, end_dd)
 
 	sp, err := common.DateSpanFromEDTF(_str)
 
-- 
2.43.0


From acd0b0e430bec1aa9083f8d9078164d339373da8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:49 +0000
Subject: [PATCH 04/39] fix: zero-pad the year following a winter sub-year
 grouping

0998-28 was rejected because its end year was rendered as 999.
---
 level2/sub_year_grouping.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/level2/sub_year_grouping.go b/level2/sub_year_grouping.go
index b96888f..00130af 100644
--- a/level2/sub_year_grouping.go
+++ b/level2/sub_year_grouping.go
@@ -96,7 +96,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.StringYear(y + 1)
 
 	case "29": // Spring - Southern Hemisphere
 		start_mm = "09"
@@ -116,7 +116,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.StringYear(y + 1)
 
 	case "31": // Autumn - Southern Hemisphere
 		start_mm = "03"
-- 
2.43.0


From 60dcee127284839420bb52acce98af5f29bd667b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:51 +0000
Subject: [PATCH 05/39] fix: zero-pad exponential years below 1000

Y1E2 (the year 0100) was rejected because it was rendered as 100.
---
 level2/exponential_year.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/level2/exponential_year.go b/level2/exponential_year.go
index ea90b09..c7242be 100644
--- a/level2/exponential_year.go
+++ b/level2/exponential_year.go
@@ -4,7 +4,6 @@ import (
 	"github.com/sfomuseum/go-edtf"
 	"github.com/sfomuseum/go-edtf/common"
 	"github.com/sfomuseum/go-edtf/re"
-	"strconv"
 )
 
 /*
@@ -47,7 +46,7 @@ func ParseExponentialYear(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, err
 	}
 
-	str_yyyy := strconv.Itoa(yyyy)
+	str_yyyy := common.StringYear(yyyy)
 
 	sp, err := common.DateSpanFromEDTF(str_yyyy)
 
-- 
2.43.0


From 32b812583abf5fbba32663f37beb5a3ccfc8bd71 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:04 +0000
Subject: [PATCH 06/39] fix: derive significant digits from the four-digit year

1950S5 panicked (more significant digits than digits), 0950S2 was rejected
because the year lost its padding and Y-1950S2 because the sign was counted.
---
 level2/significant_digits.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 925d1ea..356de59 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -65,7 +65,7 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 
 	} else if str_year != "" {
 
-		if len(str_year) > 4 {
+		if len(strings.TrimPrefix(str_year, edtf.NEGATIVE)) > 4 {
 			return nil, edtf.Unsupported(SIGNIFICANT_DIGITS, edtf_str)
 		}
 
@@ -101,11 +101,12 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	if len(strconv.Itoa(digits)) > len(strconv.Itoa(yyyy)) {
+	str_yyyy = common.StringYear(yyyy)
+
+	if digits > len(strings.TrimPrefix(str_yyyy, edtf.NEGATIVE)) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	str_yyyy = strconv.Itoa(yyyy)
 	prefix_yyyy := str_yyyy[0 : len(str_yyyy)-digits]
 
 	first := strings.Repeat("0", digits)
-- 
2.43.0


From 6230b891eda7b58d2f6aab709e61d05f26d9edf8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:26 +0000
Subject: [PATCH 07/39] fix: derive the range of months and days with an
 unspecified last digit and a leading zero

2004-0X was resolved to October..December and 2004-06-0X was rejected.
---
 common/range.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/range.go b/common/range.go
index 14de55f..cb05c2b 100644
--- a/common/range.go
+++ b/common/range.go
@@ -367,6 +367,12 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 			start_mm = "01"
 			end_mm = "12"
 
+		} else if strings.HasPrefix(mm, "0") {
+			start_mm = "01"
+			end_mm = "09"
+
+			precision = edtf.NONE
+			precision.AddFlag(edtf.MONTH)
 		} else {
 			start_mm = "10"
 			end_mm = "12"
@@ -391,6 +397,9 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		case "X":
 			start_dd = "01"
 			end_dd = ""
+		case "0":
+			start_dd = "01"
+			end_dd = "09"
 		case "1":
 			start_dd = "10"
 			end_dd = "19"
-- 
2.43.0


From 892e3af0699e88d8ac3cb98c72c48b101099e7a1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:28 +0000
Subject: [PATCH 08/39] fix: resolve the end of YYYY-02-2X to the last day of
 February

2003-02-2X was rejected because there is no 2003-02-29.
---
 common/range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/range.go b/common/range.go
index cb05c2b..46f7b08 100644
--- a/common/range.go
+++ b/common/range.go
@@ -406,6 +406,10 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		case "2":
 			start_dd = "20"
 			end_dd = "29"
+
+			if end_mm == "02" {
+				end_dd = "" // 28 or 29, depending on the year
+			}
 		case "3":
 			start_dd = "30"
 			end_dd = ""
-- 
2.43.0


From 79dd61b733bfb14e1478a8f2840f5777a195d32d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:00 +0000
Subject: [PATCH 09/39] fix: apply the time shift of a BCE date and time after
 its year

-0001-12-31T23:00:00-04 was resolved to -0002-01-01 rather than 0000-01-01.
Parse in UTC so that the local timezone plays no part in the result.
---
 level0/date_and_time.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/level0/date_and_time.go b/level0/date_and_time.go
index 2fc5227..d4c5fb0 100644
--- a/level0/date_and_time.go
+++ b/level0/date_and_time.go
@@ -63,18 +63,21 @@ func ParseDateAndTime(edtf_str string) (*edtf.EDTFDate, error) {
 		t_fmt = fmt.Sprintf("-%s", t_fmt)
 	}
 
-	t, err := time.Parse(t_fmt, edtf_str)
+	t, err := time.ParseInLocation(t_fmt, edtf_str, time.UTC)
 
 	if err != nil {
 		return nil, err
 	}
 
-	t = t.UTC()
+	// The year needs to be updated before the time shift is applied since
+	// the latter might change the day, and so the year, of the date.
 
 	if is_bce {
 		t = common.TimeToBCE(t)
 	}
 
+	t = t.UTC()
+
 	upper_date := &edtf.Date{}
 
 	lower_date := &edtf.Date{}
-- 
2.43.0


From 5847c5025077ee511d0137ecd79b148039c3b60f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:02 +0000
Subject: [PATCH 10/39] fix: an EDTFDate is neither before nor after itself

Before and After reported true for dates ending (or starting) at the same
instant, so 2021-01-01T00:00:00Z was both before and after itself.
---
 edtf.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/edtf.go b/edtf.go
index b1c7726..1b4d667 100644
--- a/edtf.go
+++ b/edtf.go
@@ -116,14 +116,10 @@ func (d *EDTFDate) After(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive lower time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.After(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.After(*u_t), nil
 }
 
-// Before reports whether the EDTFDate instance `d` is after `u`.
+// Before reports whether the EDTFDate instance `d` is before `u`.
 func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {
 
 	if IsOpen(d.EDTF) {
@@ -142,9 +138,5 @@ func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive upper time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.Before(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.Before(*u_t), nil
 }
-- 
2.43.0


From a9ee397a41b69252692c76bbae4c37772eb4e105 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:04 +0000
Subject: [PATCH 11/39] fix: NotSet returns a NotSetError

IsNotSet(NotSet()) was false.
---
 errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 5debc12..24446c2 100644
--- a/errors.go
+++ b/errors.go
@@ -12,7 +12,7 @@ func (e *NotSetError) Error() string {
 }
 
 func NotSet() error {
-	return &NotImplementedError{}
+	return &NotSetError{}
 }
 
 func IsNotSet(e error) bool {
-- 
2.43.0


From 714c95f6fc0ca124ebbbf2f6cd94cbb80fed53a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:06 +0000
Subject: [PATCH 12/39] fix: IsExtendedInterval reports false for other strings

---
 level1/extended_interval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level1/extended_interval.go b/level1/extended_interval.go
index a80e971..5c410a3 100644
--- a/level1/extended_interval.go
+++ b/level1/extended_interval.go
@@ -62,7 +62,7 @@ func IsExtendedInterval(edtf_str string) bool {
 		return true
 	}
 
-	return true
+	return false
 }
 
 func ParseExtendedInterval(edtf_str string) (*edtf.EDTFDate, error) {
-- 
2.43.0


From 0f94216c3293535c54ba147717dea874be3fdf4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:38 +0000
Subject: [PATCH 13/39] fix: check the range of exponential notation before
 converting to int64

1E64 wrapped around to the year 0 and 1E999999999, which is parsed as
infinity, panicked.
---
 common/exponential.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/exponential.go b/common/exponential.go
index 0acaab7..ea89a9c 100644
--- a/common/exponential.go
+++ b/common/exponential.go
@@ -14,13 +14,19 @@ func ParseExponentialNotation(notation string) (int, error) {
 		return 0, err
 	}
 
-	var i = new(big.Int)
-	yyyy, _ := flt.Int(i)
+	// Check the range before converting to an integer: The result may be infinite
+	// or not fit in an int64.
+
+	max := big.NewFloat(float64(edtf.MAX_YEARS))
+	min := big.NewFloat(float64(0 - edtf.MAX_YEARS))
 
-	if yyyy.Int64() > int64(edtf.MAX_YEARS) || yyyy.Int64() < int64(0-edtf.MAX_YEARS) {
+	if flt.Cmp(max) > 0 || flt.Cmp(min) < 0 {
 		return 0, edtf.Unsupported("exponential notation", notation)
 	}
 
+	var i = new(big.Int)
+	yyyy, _ := flt.Int(i)
+
 	yyyy_i := int(yyyy.Int64())
 	return yyyy_i, nil
 }
-- 
2.43.0


From 241170696883a2a45ad03697040573796cc418ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:40 +0000
Subject: [PATCH 14/39] fix: DaysInMonth rejects months outside of 1..12

Month 0 and months after December were reported as having 31 days.
---
 calendar/calendar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calendar/calendar.go b/calendar/calendar.go
index 75d3866..c5b8cdc 100644
--- a/calendar/calendar.go
+++ b/calendar/calendar.go
@@ -46,6 +46,10 @@ func DaysInMonthWithString(yyyymm string) (int, error) {
 // Calculate the number of days in a month given a year and month in numeric form.
 func DaysInMonth(yyyy int, mm int) (int, error) {
 
+	if mm < 1 || mm > 12 {
+		return 0, errors.New("Invalid month")
+	}
+
 	// Because Go can't parse dates < 0...
 
 	if yyyy < 0 {
-- 
2.43.0


From 1d7f83d96f2a8d3c47c0988c6a50e9d192e90f7a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:43 +0000
Subject: [PATCH 15/39] fix: require separators and matching brackets in set
 representations

[1667,], [1667,..], [16671668] and [1667} were all accepted; the first two were
resolved as if one of the members was unknown.
---
 level2/set_representation.go | 6 +++---
 re/re.go                     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 9702342..aac113a 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -69,12 +69,12 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 	m := re.SetRepresentations.FindStringSubmatch(edtf_str)
 
-	if len(m) != 6 {
+	if len(m) != 17 {
 		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
 	}
 
-	class := m[1]
-	candidates := m[2]
+	class := m[1] + m[9]
+	candidates := m[2] + m[10]
 
 	start_ymd := ""
 	end_ymd := ""
diff --git a/re/re.go b/re/re.go
index c6a65f5..0bad141 100644
--- a/re/re.go
+++ b/re/re.go
@@ -56,9 +56,9 @@ const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_L
 
 const PATTERN_SUB_YEAR_GROUPING string = `(\d{4})\-(1[0-2]|2[1-9]|3[0-9]|4[0-1])`
 
-// PLEASE FIX ME TO ENSURE CLOSING EL IS THE SAME AS OPENING EL : {}, (), []
+const PATTERN_SET_MEMBERS string = `((?:\.\.)?` + PATTERN_DATE + `(?:(?:,|\.\.)` + PATTERN_DATE + `)*(?:\.\.)?)`
 
-const PATTERN_SET_REPRESENTATIONS string = `(\[|\{)((?:\.\.)?(?:(?:` + PATTERN_DATE + `(?:,|\.\.)?)+(?:\.\.)?))[\}\]]`
+const PATTERN_SET_REPRESENTATIONS string = `(?:(\[)` + PATTERN_SET_MEMBERS + `\]|(\{)` + PATTERN_SET_MEMBERS + `\})`
 
 const PATTERN_GROUP_QUALIFICATION string = `(?:(\d{4})(%|~|\?)?(?:-(\d{2})(%|~|\?)?(?:-(\d{2})(%|~|\?)?)?)?)`
 
-- 
2.43.0


From ddb40e6b294627563cf3177d78eb5b5fd4decbe5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:45 +0000
Subject: [PATCH 16/39] fix: find the bookends of a set chronologically

They were sorted as strings so the start and end of [-0200,-0100] were inverted
and [1960,1960-05] ended in May.
---
 level2/set_representation.go | 42 +++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index aac113a..9fe8d8f 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -5,7 +5,6 @@ import (
 	"github.com/sfomuseum/go-edtf"
 	"github.com/sfomuseum/go-edtf/common"
 	"github.com/sfomuseum/go-edtf/re"
-	"sort"
 	"strings"
 )
 
@@ -140,18 +139,37 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 		}
 	}
 
-	sort.Strings(possible)
-	count := len(possible)
-
-	switch count {
-	case 0:
+	if len(possible) == 0 {
 		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
-	case 1:
-		start_ymd = possible[0]
-		end_ymd = start_ymd
-	default:
-		start_ymd = possible[0]
-		end_ymd = possible[count-1]
+	}
+
+	// Find the bookends. These are compared chronologically since BCE dates and dates with
+	// different precisions don't sort as strings. In the event of a tie the date with
+	// the lesser precision, which contains the other, is preferred.
+
+	min_lower := int64(0)
+	max_upper := int64(0)
+
+	for i, date := range possible {
+
+		sp, err := common.DateSpanFromEDTF(date)
+
+		if err != nil {
+			return nil, err
+		}
+
+		lower := sp.Start.Lower.Timestamp.Unix()
+		upper := sp.End.Upper.Timestamp.Unix()
+
+		if i == 0 || lower < min_lower || (lower == min_lower && len(date) < len(start_ymd)) {
+			min_lower = lower
+			start_ymd = date
+		}
+
+		if i == 0 || upper > max_upper || (upper == max_upper && len(date) < len(end_ymd)) {
+			max_upper = upper
+			end_ymd = date
+		}
 	}
 
 	_str := start_ymd
-- 
2.43.0


From e3889a00bc50e77b1a1c0adfeae8bf124638cef9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:46 +0000
Subject: [PATCH 17/39] fix: both ends of a set that is open on both ends are
 open

[..1760,1770..] was resolved to a start and an end sharing a single range whose
lower date was open and whose upper date was 1770-12-31.
---
 level2/set_representation.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 9fe8d8f..1ee3d30 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -227,12 +227,16 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 		open_range := common.OpenDateRange()
 
-		if start_open {
+		if start_open && end_open {
+
+			sp = common.OpenDateSpan()
+
+		} else if start_open {
+
 			sp.End.Lower = sp.Start.Lower
 			sp.Start = open_range
-		}
 
-		if end_open {
+		} else {
 
 			sp.Start.Upper = sp.End.Upper
 			sp.End = open_range
-- 
2.43.0


From aea862e2ed073332f111f0b03ef0ced7ab87caf3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:10 +0000
Subject: [PATCH 18/39] fix: a negative year has exactly one minus sign

--1985 was reported as valid although it can't be parsed.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 0bad141..776c014 100644
--- a/re/re.go
+++ b/re/re.go
@@ -46,7 +46,7 @@ const PATTERN_INTERVAL_START = `(\.\.)?\/` + PATTERN_DATE
 
 const PATTERN_INTERVAL_END = PATTERN_DATE + `\/(\.\.)?`
 
-const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
+const PATTERN_NEGATIVE_YEAR = `(\-\d{4})`
 
 // Level 2
 
-- 
2.43.0


From 464692d9ad5df309ba76372af52b6553185a8e1b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:13 +0000
Subject: [PATCH 19/39] fix: reject the parse_edtf promise with an error
 message

It was rejected with the return values of fmt.Printf, a byte count and null,
and the message was written to the console instead.
---
 cmd/parse-wasm/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index 94971fb..e8c8872 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -24,14 +24,14 @@ func ParseFunc() js.Func {
 			edtf_d, err := parser.ParseString(edtf_str)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to parse '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to parse '%s', %v", edtf_str, err))
 				return nil
 			}
 
 			enc, err := json.Marshal(edtf_d)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to marshal result for '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to marshal result for '%s', %v", edtf_str, err))
 				return nil
 			}
 
-- 
2.43.0


From cbf0a9363381ae973d498a77a810cd064f2f1566 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:28:41 +0000
Subject: [PATCH 20/39] verif: contracts of package calendar (build tag verif)

---
 calendar/verif_contracts.go | 9 +++++++++
 1 file changed, 9 insertions(+)
 create mode 100644 calendar/verif_contracts.go

diff --git a/calendar/verif_contracts.go b/calendar/verif_contracts.go
new file mode 100644
index 0000000..175e8f2
--- /dev/null
+++ b/calendar/verif_contracts.go
@@ -0,0 +1,9 @@
+//go:build verif
+// +build verif
+
+package calendar
+
+//@ contract DaysInMonth(yyyy int, mm int) (days int, err error)
+//@   property C18
+//@   requires -9999 <= yyyy && yyyy <= 9999
+//@   returns spec.DaysInMonth(yyyy, mm)
-- 
2.43.0


From 751ee320058ac6196a3617bf3a47c89381ed12ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:28:41 +0000
Subject: [PATCH 21/39] verif: contracts of package common (build tag verif)

---
 common/verif_contracts.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)
 create mode 100644 common/verif_contracts.go

diff --git a/common/verif_contracts.go b/common/verif_contracts.go
new file mode 100644
index 0000000..d839290
--- /dev/null
+++ b/common/verif_contracts.go
@@ -0,0 +1,37 @@
+//go:build verif
+// +build verif
+
+package common
+
+//@ import "github.com/sfomuseum/go-edtf"
+
+//@ contract dateSpanFromYMD(edtf_str string) (span *edtf.DateSpan, err error)
+//@   opaque
+//@   case !spec.InLang(edtf_str, `^[?~%]?-?[0-9X]{4}[?~%]?(-[?~%]?[0-9X]{2}[?~%]?(-[?~%]?[0-9X]{2}[?~%]?)?)?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9X]{4}(-[0-9X]{2})?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9]{4}-[0-9]{2}-[0-9]{2}$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9]{4}-[0-9X]{2}-[0-9X]{2}$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9X]{4}-[0-9]{2}-[0-9]{2}$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9X]{4}-[0-9X]{2}-[0-9]{2}$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9X]{4}-[0-9X]{2}-[0-9X]{2}$`)
+//@   case spec.InLang(edtf_str, `^[?~%]?-?[0-9X]{4}[?~%]?(-[?~%]?[0-9X]{2}[?~%]?)?$`)
+//@   case spec.InLang(edtf_str, `^[?~%]?-?[0-9]{4}[?~%]?-[?~%]?[0-9]{2}[?~%]?-[?~%]?[0-9]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9]{4}-[0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9]{4}-[?~%][0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9]{4}-[?~%]?[0-9X]{2}[?~%]?-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9X]{4}-[0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9X]{4}-[?~%][0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9X]{4}-[?~%]?[0-9X]{2}[?~%]?-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^[?~%]-?[0-9]{4}-[0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^[?~%]-?[0-9]{4}-[?~%][0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^[?~%]-?[0-9]{4}-[?~%]?[0-9X]{2}[?~%]?-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^[?~%]-?[0-9X]{4}-[0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^[?~%]-?[0-9X]{4}-[?~%][0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^[?~%]-?[0-9X]{4}-[?~%]?[0-9X]{2}[?~%]?-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9]{4}[?~%]-[0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9]{4}[?~%]-[?~%][0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9]{4}[?~%]-[?~%]?[0-9X]{2}[?~%]?-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9X]{4}[?~%]-[0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9X]{4}[?~%]-[?~%][0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   case spec.InLang(edtf_str, `^-?[0-9X]{4}[?~%]-[?~%]?[0-9X]{2}[?~%]?-[?~%]?[0-9X]{2}[?~%]?$`)
+//@   returns spec.OpaqueSpan(edtf_str, span, err)
-- 
2.43.0


From 0f3b059817c00ff2e5b8b74fe5e90e708fa5844c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:28:41 +0000
Subject: [PATCH 22/39] verif: contracts of package parser (build tag verif)

---
 parser/verif_contracts.go | 77 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)
 create mode 100644 parser/verif_contracts.go

diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
new file mode 100644
index 0000000..fad79e0
--- /dev/null
+++ b/parser/verif_contracts.go
@@ -0,0 +1,77 @@
+//go:build verif
+// +build verif
+
+package parser
+
+//@ import "github.com/sfomuseum/go-edtf/level0"
+//@ import "github.com/sfomuseum/go-edtf/level1"
+//@ import "github.com/sfomuseum/go-edtf/level2"
+
+//@ behavior C01.validate
+//@   forall s string
+//@   do IsValid(s)
+//@   do level0.IsLevel0(s)
+//@   do level1.IsLevel1(s)
+//@   do level2.IsLevel2(s)
+
+//@ behavior C01.match
+//@   forall s string
+//@   do Matches(s)
+//@   do level0.Matches(s)
+//@   do level1.Matches(s)
+//@   do level2.Matches(s)
+
+//@ behavior C01.parse
+//@   forall s string
+//@   requires !level0.IsTimeInterval(s) && !level2.IsInterval(s)
+//@   requires level0.IsLevel0(s) || level1.IsLevel1(s) || !level2.IsSetRepresentation(s)
+//@   case level0.IsDateAndTime(s)
+//@   case level0.IsLevel0(s)
+//@   case level1.IsSeason(s)
+//@   case level1.IsLevel1(s)
+//@   case level2.IsExponentialYear(s)
+//@   case level2.IsSignificantDigits(s)
+//@   case level2.IsSubYearGrouping(s)
+//@   case level2.IsGroupQualification(s)
+//@   case level2.IsIndividualQualification(s)
+//@   case level2.IsUnspecifiedDigit(s)
+//@   do r, err := ParseString(s)
+//@   ensures spec.Complete(r, err)
+
+//@ behavior C01.parse-interval
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   requires level0.IsTimeInterval(s) || level2.IsInterval(s)
+//@   case level0.IsTimeInterval(s)
+//@   do r, err := ParseString(s)
+//@   ensures spec.Complete(r, err)
+
+//@ behavior C11.parse
+//@   forall s string
+//@   requires !level0.IsTimeInterval(s) && !level2.IsInterval(s)
+//@   requires level0.IsLevel0(s) || level1.IsLevel1(s) || !level2.IsSetRepresentation(s)
+//@   case level0.IsDateAndTime(s)
+//@   case level0.IsLevel0(s)
+//@   case level1.IsSeason(s)
+//@   case level1.IsLevel1(s)
+//@   case level2.IsExponentialYear(s)
+//@   case level2.IsSignificantDigits(s)
+//@   case level2.IsSubYearGrouping(s)
+//@   case level2.IsGroupQualification(s)
+//@   case level2.IsIndividualQualification(s)
+//@   case level2.IsUnspecifiedDigit(s)
+//@   do r, err := ParseString(s)
+//@   requires err == nil
+//@   ensures spec.SideAgrees(r.Start, level0.IsDateAndTime(s)) && spec.SideAgrees(r.End, level0.IsDateAndTime(s))
+//@   ensures spec.Ordered(r)
+//@   ensures spec.Accessors(r)
+
+//@ behavior C11.parse-interval
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   requires level0.IsTimeInterval(s) || level2.IsInterval(s)
+//@   case level0.IsTimeInterval(s)
+//@   do r, err := ParseString(s)
+//@   requires err == nil
+//@   ensures spec.SideAgrees(r.Start, false) && spec.SideAgrees(r.End, false)
+//@   ensures spec.Accessors(r)
-- 
2.43.0


From 47c6406e3a0b6efb9754910e7c8af19c30e2eb59 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:37:35 +0000
Subject: [PATCH 23/39] fix: day 00 does not exist

The pattern for days with unspecified digits accepted 00, so that 2001-01-00
resolved to the last day of the month.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 776c014..e7f3b04 100644
--- a/re/re.go
+++ b/re/re.go
@@ -14,7 +14,7 @@ const PATTERN_QUALIFIER string = `[\` + edtf.UNCERTAIN + edtf.APPROXIMATE + edtf
 
 const PATTERN_YEAR_X string = `\-?[0-9X]{4}`
 const PATTERN_MONTH_X string = `(?:[0X][1-9X]|[1X][0-2X])`
-const PATTERN_DAY_X string = `(?:[012X][0-9X]|[3X][01X])`
+const PATTERN_DAY_X string = `(?:[0X][1-9X]|[12X][0-9X]|[3X][01X])`
 
 const PATTERN_YYYY string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_YEAR_X + `|` + PATTERN_YEAR_X + PATTERN_QUALIFIER + `?)`
 const PATTERN_MM string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_MONTH_X + `|` + PATTERN_MONTH_X + PATTERN_QUALIFIER + `?)`
-- 
2.43.0


From 3f44408fcffdb750f59ff753cda316b8827069ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:37:35 +0000
Subject: [PATCH 24/39] verif: contracts for dates, date-times, qualifiers and
 unspecified digits

---
 parser/verif_contracts.go | 140 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 140 insertions(+)

diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index fad79e0..3278647 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -75,3 +75,143 @@ package parser
 //@   requires err == nil
 //@   ensures spec.SideAgrees(r.Start, false) && spec.SideAgrees(r.End, false)
 //@   ensures spec.Accessors(r)
+
+//@ behavior C02.year
+//@   forall sign, y string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`)
+//@   do r, err := ParseString(sign + y)
+//@   do yy := spec.YearOf(sign, y)
+//@   ensures spec.Covers(r, err, yy, 1, 1, yy, 12, 31)
+
+//@ behavior C02.year-month
+//@   forall sign, y, m string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`)
+//@   requires !spec.InLang(m, `^(2[1-9]|3[0-9]|4[01])$`)
+//@   do r, err := ParseString(sign + y + "-" + m)
+//@   ensures spec.MonthOrRefused(r, err, spec.YearOf(sign, y), spec.Num(m))
+
+//@ behavior C02.day
+//@   forall sign, y, m, d string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(d, `^[0-9]{2}$`)
+//@   do r, err := ParseString(sign + y + "-" + m + "-" + d)
+//@   ensures spec.DayOrRefused(r, err, spec.YearOf(sign, y), spec.Num(m), spec.Num(d))
+
+//@ behavior C03.utc
+//@   forall sign, y, m, d, hh, mm, ss, z string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(d, `^[0-9]{2}$`)
+//@   requires spec.InLang(hh, `^[0-9]{2}$`) && spec.InLang(mm, `^[0-9]{2}$`) && spec.InLang(ss, `^[0-9]{2}$`) && spec.InLang(z, `^Z?$`)
+//@   do r, err := ParseString(sign + y + "-" + m + "-" + d + "T" + hh + ":" + mm + ":" + ss + z)
+//@   ensures spec.TimedOrRefused(r, err, spec.YearOf(sign, y), spec.Num(m), spec.Num(d), spec.Num(hh), spec.Num(mm), spec.Num(ss), 0)
+
+//@ behavior C03.hours
+//@   forall sign, y, m, d, hh, mm, ss, zs, zh string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(d, `^[0-9]{2}$`)
+//@   requires spec.InLang(hh, `^[0-9]{2}$`) && spec.InLang(mm, `^[0-9]{2}$`) && spec.InLang(ss, `^[0-9]{2}$`)
+//@   requires spec.InLang(zs, `^[+-]$`) && spec.InLang(zh, `^([01][0-9]|2[0-3])$`)
+//@   do r, err := ParseString(sign + y + "-" + m + "-" + d + "T" + hh + ":" + mm + ":" + ss + zs + zh)
+//@   do shift := spec.YearOf(zs, zh) * 3600
+//@   ensures spec.TimedOrRefused(r, err, spec.YearOf(sign, y), spec.Num(m), spec.Num(d), spec.Num(hh), spec.Num(mm), spec.Num(ss), shift)
+
+//@ behavior C03.hours-minutes
+//@   forall sign, y, m, d, hh, mm, ss, zs, zh, zm string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(d, `^[0-9]{2}$`)
+//@   requires spec.InLang(hh, `^[0-9]{2}$`) && spec.InLang(mm, `^[0-9]{2}$`) && spec.InLang(ss, `^[0-9]{2}$`)
+//@   requires spec.InLang(zs, `^[+-]$`) && spec.InLang(zh, `^([01][0-9]|2[0-3])$`) && spec.InLang(zm, `^[0-5][0-9]$`)
+//@   do r, err := ParseString(sign + y + "-" + m + "-" + d + "T" + hh + ":" + mm + ":" + ss + zs + zh + ":" + zm)
+//@   do shift := spec.YearOf(zs, zh) * 3600 + spec.YearOf(zs, zm) * 60
+//@   ensures spec.TimedOrRefused(r, err, spec.YearOf(sign, y), spec.Num(m), spec.Num(d), spec.Num(hh), spec.Num(mm), spec.Num(ss), shift)
+
+//@ behavior C05.right-of-date
+//@   forall sign, y, m, d, q string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(d, `^[0-9]{2}$`)
+//@   requires spec.InLang(q, `^[?~%]$`)
+//@   do yy, mm, dd := spec.YearOf(sign, y), spec.Num(m), spec.Num(d)
+//@   do r, err := ParseString(sign + y + "-" + m + "-" + d + q)
+//@   ensures spec.DayOrRefused(r, err, yy, mm, dd)
+//@   ensures err != nil || spec.GroupFlags(r, err, "", "", q)
+
+//@ behavior C05.right-of-month
+//@   forall sign, y, m, q string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(q, `^[?~%]$`)
+//@   do r, err := ParseString(sign + y + "-" + m + q)
+//@   ensures spec.MonthOrRefused(r, err, spec.YearOf(sign, y), spec.Num(m))
+//@   ensures err != nil || spec.GroupFlags(r, err, "", q, "")
+
+//@ behavior C05.right-of-year
+//@   forall sign, y, q string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(q, `^[?~%]$`)
+//@   do yy := spec.YearOf(sign, y)
+//@   do r, err := ParseString(sign + y + q)
+//@   ensures spec.Covers(r, err, yy, 1, 1, yy, 12, 31)
+//@   ensures spec.GroupFlags(r, err, q, "", "")
+
+//@ behavior C05.right-of-parts
+//@   forall y, qy, m, qm, d, qd string
+//@   requires spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(d, `^[0-9]{2}$`)
+//@   requires spec.InLang(qy, `^[?~%]?$`) && spec.InLang(qm, `^[?~%]?$`) && spec.InLang(qd, `^[?~%]?$`)
+//@   do r, err := ParseString(y + qy + "-" + m + qm + "-" + d + qd)
+//@   ensures spec.DayOrRefused(r, err, spec.Num(y), spec.Num(m), spec.Num(d))
+//@   ensures err != nil || spec.GroupFlags(r, err, qy, qm, qd)
+
+//@ behavior C05.right-of-year-and-month
+//@   forall y, qy, m, qm string
+//@   requires spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`)
+//@   requires spec.InLang(qy, `^[?~%]?$`) && spec.InLang(qm, `^[?~%]?$`)
+//@   requires qy != "" || qm != ""
+//@   do r, err := ParseString(y + qy + "-" + m + qm)
+//@   ensures spec.MonthOrRefused(r, err, spec.Num(y), spec.Num(m))
+//@   ensures err != nil || spec.GroupFlags(r, err, qy, qm, "")
+
+//@ behavior C05.left-of-parts
+//@   forall y, qy, m, qm, d, qd string
+//@   requires spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(d, `^[0-9]{2}$`)
+//@   requires spec.InLang(qy, `^[?~%]?$`) && spec.InLang(qm, `^[?~%]?$`) && spec.InLang(qd, `^[?~%]?$`)
+//@   do r, err := ParseString(qy + y + "-" + qm + m + "-" + qd + d)
+//@   ensures spec.DayOrRefused(r, err, spec.Num(y), spec.Num(m), spec.Num(d))
+//@   ensures err != nil || spec.EachFlags(r, err, qy, qm, qd)
+
+//@ behavior C05.left-of-year-and-month
+//@   forall y, qy, m, qm string
+//@   requires spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`)
+//@   requires spec.InLang(qy, `^[?~%]?$`) && spec.InLang(qm, `^[?~%]?$`)
+//@   requires qy != "" || qm != ""
+//@   do r, err := ParseString(qy + y + "-" + qm + m)
+//@   ensures spec.MonthOrRefused(r, err, spec.Num(y), spec.Num(m))
+//@   ensures err != nil || spec.EachFlags(r, err, qy, qm, "")
+
+//@ behavior C05.left-of-year
+//@   forall y, qy string
+//@   requires spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(qy, `^[?~%]$`)
+//@   do r, err := ParseString(qy + y)
+//@   ensures spec.Covers(r, err, spec.Num(y), 1, 1, spec.Num(y), 12, 31)
+//@   ensures spec.EachFlags(r, err, qy, "", "")
+
+//@ behavior C05.none
+//@   forall s string
+//@   requires !spec.InLang(s, `[?~%]`)
+//@   requires level0.IsLevel0(s) && !level0.IsTimeInterval(s) || level1.IsSeason(s) || level2.IsUnspecifiedDigit(s)
+//@   do r, err := ParseString(s)
+//@   requires err == nil
+//@   ensures spec.Flags(r, err, 0, 0)
+
+//@ behavior C06.year
+//@   forall y string
+//@   requires spec.InLang(y, `^[0-9X]{4}$`) && spec.InLang(y, `X`)
+//@   do r, err := ParseString(y)
+//@   ensures spec.UnspecYear(r, err, y)
+
+//@ behavior C06.month
+//@   forall y, m string
+//@   requires spec.InLang(y, `^[0-9X]{4}$`) && spec.InLang(m, `^[0-9X]{2}$`)
+//@   requires spec.InLang(y, `X`) || spec.InLang(m, `X`)
+//@   do r, err := ParseString(y + "-" + m)
+//@   ensures spec.UnspecMonth(r, err, y, m)
+
+//@ behavior C06.day
+//@   forall y, m, d string
+//@   requires spec.InLang(y, `^[0-9X]{4}$`) && spec.InLang(m, `^[0-9X]{2}$`) && spec.InLang(d, `^[0-9X]{2}$`)
+//@   requires spec.InLang(y, `X`) || spec.InLang(m, `X`) || spec.InLang(d, `X`)
+//@   case !spec.InLang(y, `X`)
+//@   case !spec.InLang(m, `X`)
+//@   do r, err := ParseString(y + "-" + m + "-" + d)
+//@   ensures spec.UnspecDay(r, err, y, m, d)
-- 
2.43.0


From 04970c17e94ded149af5f994a9971ee385b75b3c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:33 +0000
Subject: [PATCH 25/39] verif: contracts for seasons, years and precision

---
 parser/verif_contracts.go | 126 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 126 insertions(+)

diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index 3278647..1a96238 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -3,6 +3,7 @@
 
 package parser
 
+//@ import "github.com/sfomuseum/go-edtf"
 //@ import "github.com/sfomuseum/go-edtf/level0"
 //@ import "github.com/sfomuseum/go-edtf/level1"
 //@ import "github.com/sfomuseum/go-edtf/level2"
@@ -215,3 +216,128 @@ package parser
 //@   case !spec.InLang(m, `X`)
 //@   do r, err := ParseString(y + "-" + m + "-" + d)
 //@   ensures spec.UnspecDay(r, err, y, m, d)
+
+//@ behavior C07.season
+//@   forall sign, y, g string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(g, `^2[1-4]$`)
+//@   do r, err := ParseString(sign + y + "-" + g)
+//@   ensures spec.Grouping(r, err, spec.YearOf(sign, y), spec.Num(g))
+
+//@ behavior C07.named-season
+//@   forall name, sp1, sp2, y string
+//@   requires spec.InLang(name, `(?i)^(spring|summer|fall|winter)$`) && spec.InLang(y, `^[0-9]{4}$`)
+//@   requires spec.InLang(sp1, `^\s*$`) && spec.InLang(sp2, `^\s*$`)
+//@   do r, err := ParseString(name + sp1 + "," + sp2 + y)
+//@   ensures spec.Grouping(r, err, spec.Num(y), spec.SeasonNumber(name))
+
+//@ behavior C07.grouping
+//@   forall y, g string
+//@   requires spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(g, `^(2[5-9]|3[0-9]|4[01])$`)
+//@   do r, err := ParseString(y + "-" + g)
+//@   ensures spec.Grouping(r, err, spec.Num(y), spec.Num(g))
+
+//@ behavior C07.grouping-level-2
+//@   forall y, g string
+//@   requires spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(g, `^(2[1-9]|3[0-9]|4[01])$`)
+//@   do r, err := level2.ParseSubYearGroupings(y + "-" + g)
+//@   ensures spec.Grouping(r, err, spec.Num(y), spec.Num(g))
+
+//@ behavior C09.letter-year
+//@   forall sign, y string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`)
+//@   do r, err := ParseString("Y" + sign + y)
+//@   ensures spec.Year(r, err, spec.YearOf(sign, y))
+
+//@ behavior C09.letter-year-beyond
+//@   forall s string
+//@   requires spec.InLang(s, `^Y-?[0-9]{5,}$`)
+//@   do r, err := ParseString(s)
+//@   ensures spec.Refused(r, err) && spec.Kind(err) == 4
+
+//@ behavior C09.exponent
+//@   forall sign, z, m, ez, e string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(z, `^0*$`) && spec.InLang(m, `^[0-9]{1,4}$`)
+//@   requires spec.InLang(ez, `^0*$`) && spec.InLang(e, `^[0-3]$`)
+//@   requires spec.InLang(m + e, `^(....0|...[01]|..[0-2]|.[0-3])$`)
+//@   do r, err := ParseString("Y" + sign + z + m + "E" + ez + e)
+//@   ensures spec.Year(r, err, spec.YearOf(sign, m) * spec.Pow10(spec.Num(e)))
+
+//@ behavior C09.exponent-of-zero
+//@   forall s string
+//@   requires spec.InLang(s, `^[Yy]-?0+[Ee][0-9]{1,5}$`)
+//@   do r, err := ParseString(s)
+//@   ensures spec.Year(r, err, 0)
+
+//@ behavior C09.exponent-beyond
+//@   forall l, sign, z, m, c, ez, e string
+//@   requires spec.InLang(l, `^[Yy]$`) && spec.InLang(sign, `^-?$`) && spec.InLang(z, `^0*$`) && spec.InLang(m, `^[1-9][0-9]*$`)
+//@   requires spec.InLang(c, `^[Ee]$`) && spec.InLang(ez, `^0*$`) && spec.InLang(e, `^(0|[1-9][0-9]*)$`)
+//@   requires !spec.InLang(m + "E" + e, `^([0-9]E[0-3]|[0-9]{2}E[0-2]|[0-9]{3}E[01]|[0-9]{4}E0)$`)
+//@   do r, err := ParseString(l + sign + z + m + c + ez + e)
+//@   ensures spec.Refused(r, err)
+//@   ensures spec.Kind(err) == 4 || !spec.InLang(e, `^([0-9]{1,6}|1000000)$`)
+
+//@ behavior C09.significant-digits
+//@   forall sign, y, n string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(n, `^0?[0-4]$`)
+//@   requires sign == "" || y != "0000"
+//@   do r, err := ParseString(sign + y + "S" + n)
+//@   ensures spec.Significant(r, err, sign == "-", spec.Num(y), spec.Num(n))
+
+//@ behavior C09.significant-digits-of-letter-year
+//@   forall sign, y, n string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(n, `^0?[0-4]$`)
+//@   requires sign == "" || y != "0000"
+//@   do r, err := ParseString("Y" + sign + y + "S" + n)
+//@   ensures spec.Significant(r, err, sign == "-", spec.Num(y), spec.Num(n))
+
+//@ behavior C09.significant-digits-of-exponent
+//@   forall sign, m, e, n string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(m, `^[0-9]{1,4}$`) && spec.InLang(e, `^[0-3]$`) && spec.InLang(n, `^0?[0-4]$`)
+//@   requires spec.InLang(m + e, `^(....0|...[01]|..[0-2]|.[0-3])$`)
+//@   requires sign == "" || !spec.InLang(m, `^0+$`)
+//@   do r, err := ParseString("Y" + sign + m + "E" + e + "S" + n)
+//@   ensures spec.Significant(r, err, sign == "-", spec.Num(m) * spec.Pow10(spec.Num(e)), spec.Num(n))
+
+//@ behavior C09.significant-digits-beyond
+//@   forall s string
+//@   requires spec.InLang(s, `^Y-?0*[1-9][0-9]{4,}S[0-9]+$`)
+//@   do r, err := ParseString(s)
+//@   ensures spec.Refused(r, err) && spec.Kind(err) == 4
+
+//@ behavior C16.complete
+//@   forall s string
+//@   requires level0.IsDate(s) || level1.IsQualifiedDate(s) || level2.IsGroupQualification(s) || level2.IsIndividualQualification(s)
+//@   do r, err := ParseString(s)
+//@   ensures spec.PrecIfParsed(r, err, edtf.YEAR)
+
+//@ behavior C16.unspecified-year
+//@   forall y string
+//@   requires spec.InLang(y, `^[0-9X]{4}$`)
+//@   do r, err := ParseString(y)
+//@   ensures spec.PrecIfParsed(r, err, spec.PrecisionOf(y, "", ""))
+
+//@ behavior C16.unspecified-month
+//@   forall y, m string
+//@   requires spec.InLang(y, `^[0-9X]{4}$`) && spec.InLang(m, `^([0-9X]X|0[0-9]|1[0-2])$`)
+//@   do r, err := ParseString(y + "-" + m)
+//@   ensures spec.PrecIfParsed(r, err, spec.PrecisionOf(y, m, ""))
+
+//@ behavior C16.unspecified-day
+//@   forall y, m, d string
+//@   requires spec.InLang(y, `^[0-9X]{4}$`) && spec.InLang(m, `^[0-9X]{2}$`) && spec.InLang(d, `^[0-9X]{2}$`)
+//@   do r, err := ParseString(y + "-" + m + "-" + d)
+//@   ensures spec.PrecIfParsed(r, err, spec.PrecisionOf(y, m, d))
+
+//@ behavior C16.timed
+//@   forall s string
+//@   requires level0.IsDateAndTime(s)
+//@   do r, err := ParseString(s)
+//@   ensures err != nil || spec.NoPrecision(r, true)
+
+//@ behavior C16.open-sides
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   requires level1.IsExtendedInterval(s) || level0.IsTimeInterval(s) || level2.IsInterval(s)
+//@   do r, err := ParseString(s)
+//@   ensures err != nil || spec.NoPrecision(r, false)
-- 
2.43.0


From e31d6d72b3dd744b821099b1b0612c572e2787cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:31:20 +0000
Subject: [PATCH 26/39] verif: contracts for intervals

---
 parser/verif_contracts.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index 1a96238..f5d84cc 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -4,6 +4,7 @@
 package parser
 
 //@ import "github.com/sfomuseum/go-edtf"
+//@ import "github.com/sfomuseum/go-edtf/common"
 //@ import "github.com/sfomuseum/go-edtf/level0"
 //@ import "github.com/sfomuseum/go-edtf/level1"
 //@ import "github.com/sfomuseum/go-edtf/level2"
@@ -341,3 +342,26 @@ package parser
 //@   requires level1.IsExtendedInterval(s) || level0.IsTimeInterval(s) || level2.IsInterval(s)
 //@   do r, err := ParseString(s)
 //@   ensures err != nil || spec.NoPrecision(r, false)
+
+//@ behavior C04.interval
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   requires level0.IsTimeInterval(s) || level1.IsExtendedInterval(s) || level2.IsInterval(s)
+//@   case level0.IsTimeInterval(s)
+//@   case level1.IsExtendedInterval(s)
+//@   do r, err := ParseString(s)
+//@   do a, b := spec.Operands(s)
+//@   do sa, ea := common.DateSpanFromEDTF(a)
+//@   do sb, eb := common.DateSpanFromEDTF(b)
+//@   ensures spec.Interval(r, err, a, sa, ea, b, sb, eb)
+
+//@ behavior C04.operand
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   requires level0.IsDate(s) || level1.IsLevel1(s) || level2.IsLevel2(s)
+//@   requires spec.InLang(s, `^[0-9X?~%-]+$`) && !level2.IsSubYearGrouping(s) && !level1.IsSeason(s)
+//@   case level0.IsDate(s)
+//@   case level1.IsLevel1(s)
+//@   do r, err := ParseString(s)
+//@   do sa, ea := common.DateSpanFromEDTF(s)
+//@   ensures spec.SameSpan(r, err, sa, ea)
-- 
2.43.0


From 36bc211be95120162f6e83c1ef9e3540cd392435 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:10 +0000
Subject: [PATCH 27/39] fix: report every year whose first digit is unspecified
 as not implemented

---
 common/range.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/range.go b/common/range.go
index 46f7b08..44be1d4 100644
--- a/common/range.go
+++ b/common/range.go
@@ -258,6 +258,12 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 
 	// fmt.Println("PRECISION 0", edtf_str, precision)
 
+	// whatever the other digits are, as in "XXXX" or "X000"
+
+	if strings.HasPrefix(yyyy, "X") {
+		return nil, edtf.NotImplemented("date", edtf_str)
+	}
+
 	if !strings.HasSuffix(yyyy, "X") {
 
 		precision = edtf.NONE
-- 
2.43.0


From ad24bfa98213d0ee63786ff172edfa56cc4ac558 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:28 +0000
Subject: [PATCH 28/39] verif: contracts for matching, errors, comparison,
 flags and deprecated notations

---
 parser/verif_contracts.go | 380 ++++++++++++++++++++++++++++++++++++++
 verif_contracts.go        | 111 +++++++++++
 2 files changed, 491 insertions(+)
 create mode 100644 verif_contracts.go

diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index f5d84cc..c440a6a 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -365,3 +365,383 @@ package parser
 //@   do r, err := ParseString(s)
 //@   do sa, ea := common.DateSpanFromEDTF(s)
 //@   ensures spec.SameSpan(r, err, sa, ea)
+
+//@ behavior C10.date
+//@   forall s string
+//@   requires spec.InLang(s, `^[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level0.LEVEL && f == level0.DATE
+//@   ensures IsValid(s)
+
+//@ behavior C10.date-and-time
+//@   forall s string
+//@   requires spec.InLang(s, `^[0-9]{4}-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])T([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](Z|[+-]([01][0-9]|2[0-3])(:[0-5][0-9])?)?$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level0.LEVEL && f == level0.DATE_AND_TIME
+//@   ensures IsValid(s)
+
+//@ behavior C10.time-interval
+//@   forall s string
+//@   requires spec.InLang(s, `^[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?/[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level0.LEVEL && f == level0.TIME_INTERVAL
+//@   ensures IsValid(s)
+
+//@ behavior C10.letter-prefixed-year
+//@   forall s string
+//@   requires spec.InLang(s, `^Y-?[0-9]{5,}$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level1.LEVEL && f == level1.LETTER_PREFIXED_CALENDAR_YEAR
+//@   ensures IsValid(s)
+
+//@ behavior C10.season
+//@   forall s string
+//@   requires spec.InLang(s, `^[0-9]{4}-2[1-4]$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level1.LEVEL && f == level1.SEASON
+//@   ensures IsValid(s)
+
+//@ behavior C10.named-season
+//@   forall s string
+//@   requires spec.InLang(s, `^(?i:spring|summer|fall|winter) *, *[0-9]{4}$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level1.LEVEL && f == level1.SEASON
+//@   ensures IsValid(s)
+
+//@ behavior C10.qualified-date
+//@   forall s string
+//@   requires spec.InLang(s, `^[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?[?~%]$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level1.LEVEL && f == level1.QUALIFIED_DATE
+//@   ensures IsValid(s)
+
+//@ behavior C10.unspecified-digits
+//@   forall s string
+//@   requires spec.InLang(s, `^([0-9]{3}X|[0-9]{2}XX|[0-9]{4}-XX|[0-9]{4}-(0[1-9]|1[0-2])-XX|[0-9]{4}-XX-XX)$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level1.LEVEL && f == level1.UNSPECIFIED_DIGITS
+//@   ensures IsValid(s)
+
+//@ behavior C10.interval-start
+//@   forall s string
+//@   requires spec.InLang(s, `^(\.\.)?/[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level1.LEVEL && f == level1.EXTENDED_INTERVAL_START
+//@   ensures IsValid(s)
+
+//@ behavior C10.interval-end
+//@   forall s string
+//@   requires spec.InLang(s, `^[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?/(\.\.)?$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level1.LEVEL && f == level1.EXTENDED_INTERVAL_END
+//@   ensures IsValid(s)
+
+//@ behavior C10.exponential-year
+//@   forall s string
+//@   requires spec.InLang(s, `^Y-?[0-9]+E[0-9]+$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level2.LEVEL && f == level2.EXPONENTIAL_YEAR
+//@   ensures IsValid(s)
+
+//@ behavior C10.significant-digits
+//@   forall s string
+//@   requires spec.InLang(s, `^([0-9]{4}|Y-?[0-9]+(E[0-9]+)?)S[0-9]+$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level2.LEVEL && f == level2.SIGNIFICANT_DIGITS
+//@   ensures IsValid(s)
+
+//@ behavior C10.sub-year-grouping
+//@   forall s string
+//@   requires spec.InLang(s, `^[0-9]{4}-(2[5-9]|3[0-9]|4[01])$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level2.LEVEL && f == level2.SUB_YEAR_GROUPINGS
+//@   ensures IsValid(s)
+
+//@ behavior C10.set
+//@   forall s string
+//@   requires spec.InLang(s, `^(\[(\.\.)?[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?((,|\.\.)[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?)*(\.\.)?\]|\{(\.\.)?[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?((,|\.\.)[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?)*(\.\.)?\})$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level2.LEVEL && f == level2.SET_REPRESENTATIONS
+//@   ensures IsValid(s)
+
+//@ behavior C10.group-qualification
+//@   forall s string
+//@   requires spec.InLang(s, `^[0-9]{4}([?~%]-(0[1-9]|1[0-2])[?~%]?|[?~%]-(0[1-9]|1[0-2])[?~%]?-(0[1-9]|[12][0-9]|3[01])[?~%]?|-(0[1-9]|1[0-2])[?~%]-(0[1-9]|[12][0-9]|3[01])[?~%]?)$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level2.LEVEL && f == level2.GROUP_QUALIFICATION
+//@   ensures IsValid(s)
+
+//@ behavior C10.individual-qualification
+//@   forall s string
+//@   requires spec.InLang(s, `^([?~%][0-9]{4}(-[?~%]?(0[1-9]|1[0-2])(-[?~%]?(0[1-9]|[12][0-9]|3[01]))?)?|[0-9]{4}-[?~%](0[1-9]|1[0-2])(-[?~%]?(0[1-9]|[12][0-9]|3[01]))?|[0-9]{4}-(0[1-9]|1[0-2])-[?~%](0[1-9]|[12][0-9]|3[01]))$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level2.LEVEL && f == level2.INDIVIDUAL_QUALIFICATION
+//@   ensures IsValid(s)
+
+//@ behavior C10.negative-date
+//@   forall s string
+//@   requires spec.InLang(s, `^-[0-9]{4}(-(0[1-9]|1[0-2])(-(0[1-9]|[12][0-9]|3[01]))?)?$`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && (l == level0.LEVEL && f == level0.DATE || l == level1.LEVEL && f == level1.NEGATIVE_CALENDAR_YEAR)
+//@   ensures IsValid(s)
+
+//@ behavior C10.unspecified-digits-anywhere
+//@   forall s string
+//@   requires spec.InLang(s, `^([0-9]{4}|[0-9]{3}X|[0-9]{2}XX|[0-9]XXX|XXXX)(-(0[1-9]|1[0-2]|0X|1X|XX|X[0-9])(-(0[1-9]|[12][0-9]|3[01]|0X|1X|2X|3X|XX))?)?$`) && spec.InLang(s, `X`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && (l == level1.LEVEL && f == level1.UNSPECIFIED_DIGITS || l == level2.LEVEL && f == level2.UNSPECIFIED_DIGIT)
+//@   ensures IsValid(s)
+
+//@ behavior C10.interval-with-parts
+//@   forall s string
+//@   requires spec.InLang(s, `^([?~%]?-?[0-9X]{4}(-[?~%]?([0-9X]{2})(-[?~%]?([0-9X]{2}))?)?/){1}[?~%]?-?[0-9X]{4}(-[?~%]?([0-9X]{2})(-[?~%]?([0-9X]{2}))?)?$`) && spec.InLang(s, `[X?~%]`)
+//@   do l, f, err := Matches(s)
+//@   ensures err == nil && l == level2.LEVEL && f == level2.INTERVAL
+//@   ensures IsValid(s)
+
+//@ behavior C10.nothing-else
+//@   forall s string
+//@   do l, f, err := Matches(s)
+//@   requires err == nil
+//@   ensures f != level0.DATE || l == level0.LEVEL && spec.InLang(s, `^-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?$`)
+//@   ensures f != level0.DATE_AND_TIME || l == level0.LEVEL && spec.InLang(s, `^-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?T[0-9]{2}:[0-9]{2}:[0-9]{2}(Z|[+-][0-9]{2}(:[0-9]{2})?)?$`)
+//@   ensures f != level0.TIME_INTERVAL || l == level0.LEVEL && spec.InLang(s, `^-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?/-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?$`)
+//@   ensures f != level1.LETTER_PREFIXED_CALENDAR_YEAR || l == level1.LEVEL && spec.InLang(s, `^Y-?[0-9]+$`)
+//@   ensures f != level1.SEASON || l == level1.LEVEL && spec.InLang(s, `^(-?[0-9]{4}-[0-9]{2}|(?i:spring|summer|fall|winter)\s*,\s*[0-9]{4})$`)
+//@   ensures f != level1.QUALIFIED_DATE || l == level1.LEVEL && spec.InLang(s, `^-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?[?~%]$`)
+//@   ensures f != level1.UNSPECIFIED_DIGITS || l == level1.LEVEL && spec.InLang(s, `^[0-9X]{4}(-[0-9X]{2}(-[0-9X]{2})?)?$`)
+//@   ensures f != level1.NEGATIVE_CALENDAR_YEAR || l == level1.LEVEL && spec.InLang(s, `^-[0-9]{4}$`)
+//@   ensures f != level1.EXTENDED_INTERVAL_START || l == level1.LEVEL && spec.InLang(s, `^(\.\.)?/-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?$`)
+//@   ensures f != level1.EXTENDED_INTERVAL_END || l == level1.LEVEL && spec.InLang(s, `^-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?/(\.\.)?$`)
+//@   ensures f != level2.EXPONENTIAL_YEAR || l == level2.LEVEL && spec.InLang(s, `^[Yy]-?[0-9]+[Ee][0-9]+$`)
+//@   ensures f != level2.SIGNIFICANT_DIGITS || l == level2.LEVEL && spec.InLang(s, `^(-?[0-9]{4}|Y-?[0-9]+|[Yy]-?[0-9]+[Ee][0-9]+)S[0-9]+$`)
+//@   ensures f != level2.SUB_YEAR_GROUPINGS || l == level2.LEVEL && spec.InLang(s, `^[0-9]{4}-[0-9]{2}$`)
+//@   ensures f != level2.SET_REPRESENTATIONS || l == level2.LEVEL && spec.InLang(s, `^(\[(\.\.)?-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?((,|\.\.)-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?)*(\.\.)?\]|\{(\.\.)?-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?((,|\.\.)-?[0-9]{4}(-[0-9]{2}(-[0-9]{2})?)?)*(\.\.)?\})$`)
+//@   ensures f != level2.GROUP_QUALIFICATION || l == level2.LEVEL && spec.InLang(s, `^[0-9]{4}[?~%]?(-[0-9]{2}[?~%]?(-[0-9]{2}[?~%]?)?)?$`)
+//@   ensures f != level2.INDIVIDUAL_QUALIFICATION || l == level2.LEVEL && spec.InLang(s, `^[?~%]?[0-9]{4}(-[?~%]?[0-9]{2}(-[?~%]?[0-9]{2})?)?$`)
+//@   ensures f != level2.UNSPECIFIED_DIGIT || l == level2.LEVEL && spec.InLang(s, `^[0-9X]{4}(-[0-9X]{2}(-[0-9X]{2})?)?$`)
+//@   ensures f != level2.INTERVAL || l == level2.LEVEL && spec.InLang(s, `^[?~%]?-?[0-9X]{4}(-[?~%]?[0-9X]{2}(-[?~%]?[0-9X]{2})?)?/[?~%]?-?[0-9X]{4}(-[?~%]?[0-9X]{2}(-[?~%]?[0-9X]{2})?)?$`)
+//@   ensures f == level0.DATE || f == level0.DATE_AND_TIME || f == level0.TIME_INTERVAL || f == level1.LETTER_PREFIXED_CALENDAR_YEAR || f == level1.SEASON || f == level1.QUALIFIED_DATE || f == level1.UNSPECIFIED_DIGITS || f == level1.NEGATIVE_CALENDAR_YEAR || f == level1.EXTENDED_INTERVAL_START || f == level1.EXTENDED_INTERVAL_END || f == level2.EXPONENTIAL_YEAR || f == level2.SIGNIFICANT_DIGITS || f == level2.SUB_YEAR_GROUPINGS || f == level2.SET_REPRESENTATIONS || f == level2.GROUP_QUALIFICATION || f == level2.INDIVIDUAL_QUALIFICATION || f == level2.UNSPECIFIED_DIGIT || f == level2.INTERVAL
+
+//@ behavior C10.agree
+//@   forall s string
+//@   do l, f, err := Matches(s)
+//@   ensures IsValid(s) == (err == nil || s == "" || s == "..")
+//@   ensures err == nil && l >= 0 && l <= 2 && f != "" || err != nil && l == -1 && f == ""
+//@   ensures IsValid(s) == (level0.IsLevel0(s) || level1.IsLevel1(s) || level2.IsLevel2(s) || s == "" || s == "..")
+
+//@ behavior C10.refused
+//@   forall s string
+//@   requires !IsValid(s)
+//@   do r, err := ParseString(s)
+//@   ensures spec.Refused(r, err)
+
+//@ behavior C10.open-and-unknown
+//@   forall s string
+//@   requires s == "" || s == ".."
+//@   do r, err := ParseString(s)
+//@   ensures err == nil && r != nil && r.EDTF == s
+
+//@ behavior C10.parse
+//@   forall s string
+//@   requires !level0.IsTimeInterval(s) && !level2.IsInterval(s) && !level1.IsExtendedInterval(s)
+//@   requires level0.IsLevel0(s) || level1.IsLevel1(s) || !level2.IsSetRepresentation(s)
+//@   requires s != "" && s != ".."
+//@   case level0.IsDateAndTime(s)
+//@   case level0.IsLevel0(s)
+//@   case level1.IsSeason(s)
+//@   case level1.IsLevel1(s)
+//@   case level2.IsExponentialYear(s)
+//@   case level2.IsSignificantDigits(s)
+//@   case level2.IsSubYearGrouping(s)
+//@   case level2.IsGroupQualification(s)
+//@   case level2.IsIndividualQualification(s)
+//@   case level2.IsUnspecifiedDigit(s)
+//@   do r, err := ParseString(s)
+//@   do l, f, merr := Matches(s)
+//@   ensures spec.Echoes(r, err, s, l, f, merr)
+
+//@ behavior C10.parse-interval
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   requires level0.IsTimeInterval(s) || level2.IsInterval(s) || level1.IsExtendedInterval(s)
+//@   case level0.IsTimeInterval(s)
+//@   case level1.IsExtendedInterval(s)
+//@   do r, err := ParseString(s)
+//@   do l, f, merr := Matches(s)
+//@   ensures spec.Echoes(r, err, s, l, f, merr)
+
+//@ behavior C17.unrecognized
+//@   forall s string
+//@   requires !IsValid(s)
+//@   do r, err := ParseString(s)
+//@   do l, f, merr := Matches(s)
+//@   ensures r == nil && spec.Only(5, err) && spec.Only(5, merr) && l == -1 && f == ""
+
+//@ behavior C17.empty
+//@   forall s string
+//@   requires s == "" || s == ".."
+//@   do _, _, err := Matches(s)
+//@   ensures spec.Only(5, err)
+
+//@ behavior C17.unspecified-first-digit
+//@   forall s string
+//@   requires spec.InLang(s, `^X[0-9X]{3}$`)
+//@   do r, err := ParseString(s)
+//@   ensures r == nil && spec.Only(2, err)
+
+//@ behavior C17.beyond
+//@   forall s string
+//@   requires spec.InLang(s, `^Y-?[1-9][0-9]{4,}$`)
+//@   do r, err := ParseString(s)
+//@   ensures r == nil && spec.Only(4, err)
+
+//@ behavior C17.level0.ParseString
+//@   forall s string
+//@   requires !level0.IsLevel0(s)
+//@   do r, err := level0.ParseString(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level0.ParseDate
+//@   forall s string
+//@   requires !level0.IsDate(s)
+//@   do r, err := level0.ParseDate(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level0.ParseDateAndTime
+//@   forall s string
+//@   requires !level0.IsDateAndTime(s)
+//@   do r, err := level0.ParseDateAndTime(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level0.ParseTimeInterval
+//@   forall s string
+//@   requires !level0.IsTimeInterval(s)
+//@   do r, err := level0.ParseTimeInterval(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level1.ParseString
+//@   forall s string
+//@   requires !level1.IsLevel1(s)
+//@   do r, err := level1.ParseString(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level1.ParseQualifiedDate
+//@   forall s string
+//@   requires !level1.IsQualifiedDate(s)
+//@   do r, err := level1.ParseQualifiedDate(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level1.ParseNegativeCalendarYear
+//@   forall s string
+//@   requires !level1.IsNegativeCalendarYear(s)
+//@   do r, err := level1.ParseNegativeCalendarYear(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level1.ParseExtendedInterval
+//@   forall s string
+//@   requires !level1.IsExtendedInterval(s)
+//@   do r, err := level1.ParseExtendedInterval(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level1.ParseExtendedIntervalStart
+//@   forall s string
+//@   requires !level1.IsExtendedInterval(s)
+//@   do r, err := level1.ParseExtendedIntervalStart(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level1.ParseExtendedIntervalEnd
+//@   forall s string
+//@   requires !level1.IsExtendedInterval(s)
+//@   do r, err := level1.ParseExtendedIntervalEnd(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level1.ParseUnspecifiedDigits
+//@   forall s string
+//@   requires !level1.IsUnspecifiedDigits(s)
+//@   do r, err := level1.ParseUnspecifiedDigits(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level1.ParseLetterPrefixedCalendarYear
+//@   forall s string
+//@   requires !level1.IsLetterPrefixedCalendarYear(s)
+//@   do r, err := level1.ParseLetterPrefixedCalendarYear(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level1.ParseSeason
+//@   forall s string
+//@   requires !level1.IsSeason(s)
+//@   do r, err := level1.ParseSeason(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level2.ParseString
+//@   forall s string
+//@   requires !level2.IsLevel2(s)
+//@   do r, err := level2.ParseString(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level2.ParseSetRepresentations
+//@   forall s string
+//@   requires !level2.IsSetRepresentation(s)
+//@   do r, err := level2.ParseSetRepresentations(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level2.ParseUnspecifiedDigit
+//@   forall s string
+//@   requires !level2.IsUnspecifiedDigit(s)
+//@   do r, err := level2.ParseUnspecifiedDigit(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level2.ParseInterval
+//@   forall s string
+//@   requires !level2.IsInterval(s)
+//@   do r, err := level2.ParseInterval(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level2.ParseSubYearGroupings
+//@   forall s string
+//@   requires !level2.IsSubYearGrouping(s)
+//@   do r, err := level2.ParseSubYearGroupings(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level2.ParseSignificantDigits
+//@   forall s string
+//@   requires !level2.IsSignificantDigits(s)
+//@   do r, err := level2.ParseSignificantDigits(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level2.ParseGroupQualification
+//@   forall s string
+//@   requires !level2.IsGroupQualification(s)
+//@   do r, err := level2.ParseGroupQualification(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level2.ParseIndividualQualification
+//@   forall s string
+//@   requires !level2.IsIndividualQualification(s)
+//@   do r, err := level2.ParseIndividualQualification(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level2.ParseExponentialYear
+//@   forall s string
+//@   requires !level2.IsExponentialYear(s)
+//@   do r, err := level2.ParseExponentialYear(s)
+//@   ensures r == nil && spec.Only(3, err)
+
+//@ behavior C17.level0.Matches
+//@   forall s string
+//@   requires !level0.IsLevel0(s)
+//@   do f, err := level0.Matches(s)
+//@   ensures f == "" && spec.Only(3, err)
+
+//@ behavior C17.level1.Matches
+//@   forall s string
+//@   requires !level1.IsLevel1(s)
+//@   do f, err := level1.Matches(s)
+//@   ensures f == "" && spec.Only(3, err)
+
+//@ behavior C17.level2.Matches
+//@   forall s string
+//@   requires !level2.IsLevel2(s)
+//@   do f, err := level2.Matches(s)
+//@   ensures f == "" && spec.Only(3, err)
diff --git a/verif_contracts.go b/verif_contracts.go
new file mode 100644
index 0000000..90587ee
--- /dev/null
+++ b/verif_contracts.go
@@ -0,0 +1,111 @@
+//go:build verif
+// +build verif
+
+package edtf
+
+//@ behavior C12.before
+//@   forall de, ue string, d1, d2, d3, d4, u1, u2, u3, u4 int, dl, du, ul, uu bool
+//@   requires spec.InRange(d1) && spec.InRange(d2) && spec.InRange(d3) && spec.InRange(d4)
+//@   requires spec.InRange(u1) && spec.InRange(u2) && spec.InRange(u3) && spec.InRange(u4)
+//@   do d := spec.Result(de, dl, d1, d2, du, d3, d4)
+//@   do u := spec.Result(ue, ul, u1, u2, uu, u3, u4)
+//@   do b, err := d.Before(u)
+//@   ensures spec.BeforeIs(b, err, de, du, d4, ul, u1)
+
+//@ behavior C12.after
+//@   forall de, ue string, d1, d2, d3, d4, u1, u2, u3, u4 int, dl, du, ul, uu bool
+//@   requires spec.InRange(d1) && spec.InRange(d2) && spec.InRange(d3) && spec.InRange(d4)
+//@   requires spec.InRange(u1) && spec.InRange(u2) && spec.InRange(u3) && spec.InRange(u4)
+//@   do d := spec.Result(de, dl, d1, d2, du, d3, d4)
+//@   do u := spec.Result(ue, ul, u1, u2, uu, u3, u4)
+//@   do a, err := d.After(u)
+//@   ensures spec.AfterIs(a, err, de, dl, d1, uu, u4)
+
+//@ behavior C12.dual
+//@   forall d1, d4, u1, u4 int, dl, du, ul, uu bool
+//@   requires spec.InRange(d1) && spec.InRange(d4) && spec.InRange(u1) && spec.InRange(u4)
+//@   do d := spec.Result("x", dl, d1, d1, du, d4, d4)
+//@   do u := spec.Result("y", ul, u1, u1, uu, u4, u4)
+//@   do b, berr := d.Before(u)
+//@   do a, aerr := u.After(d)
+//@   ensures b == a && (berr == nil) == (aerr == nil)
+
+//@ behavior C12.exclusive
+//@   forall d1, d4, u1, u4 int, dl, du, ul, uu bool
+//@   requires spec.InRange(d1) && spec.InRange(d4) && spec.InRange(u1) && spec.InRange(u4)
+//@   requires d1 <= d4 && u1 <= u4
+//@   do d := spec.Result("x", dl, d1, d1, du, d4, d4)
+//@   do u := spec.Result("y", ul, u1, u1, uu, u4, u4)
+//@   do b, _ := d.Before(u)
+//@   do a, _ := d.After(u)
+//@   ensures !(b && a)
+
+//@ behavior C12.irreflexive
+//@   forall d1, d4 int, dl, du bool
+//@   requires spec.InRange(d1) && spec.InRange(d4) && d1 <= d4
+//@   do d := spec.Result("x", dl, d1, d1, du, d4, d4)
+//@   do b, _ := d.Before(d)
+//@   do a, _ := d.After(d)
+//@   ensures !b && !a
+
+//@ behavior C15.predicates
+//@   forall s string
+//@   ensures IsOpen(s) == (s == ".." || s == "open")
+//@   ensures IsUnknown(s) == (s == "" || s == "uuuu")
+//@   ensures IsUnspecified(s) == (s == "" || s == "uuuu")
+//@   ensures !(IsOpen(s) && IsUnknown(s))
+
+//@ behavior C15.deprecated
+//@   forall s string
+//@   do n, err := ReplaceDeprecated(s)
+//@   ensures IsDeprecated(s) == (err == nil)
+//@   ensures s != "open" || err == nil && n == ".."
+//@   ensures s != "uuuu" || err == nil && n == ""
+//@   ensures s == "open" || s == "uuuu" || err != nil && n == ""
+//@   ensures err != nil || !IsDeprecated(n) && IsOpen(n) == IsOpen(s) && IsUnknown(n) == IsUnknown(s)
+
+//@ behavior C16.flags
+//@   forall p, q uint32
+//@   do f, g := Precision(p), Precision(q)
+//@   do add, clr, tog := f, f, f
+//@   do add.AddFlag(g)
+//@   do clr.ClearFlag(g)
+//@   do tog.ToggleFlag(g)
+//@   ensures uint32(add) == p | q
+//@   ensures uint32(clr) == p &^ q
+//@   ensures uint32(tog) == p ^ q
+//@   ensures f.HasFlag(g) == (p & q != 0)
+//@   ensures f == Precision(p)
+
+//@ behavior C16.tests
+//@   forall p uint32
+//@   do f := Precision(p)
+//@   ensures f.IsAnnual() == (p & 64 != 0)
+//@   ensures f.IsMonthly() == (p & 32 != 0)
+//@   ensures f.IsDaily() == (p & 8 != 0)
+//@   ensures f == Precision(p)
+
+//@ behavior C16.constants
+//@   forall p uint32
+//@   ensures NONE == 0 && DAY == 8 && MONTH == 32 && YEAR == 64
+//@   ensures spec.SingleBits(p, uint32(ALL), uint32(ANY), uint32(DAY), uint32(WEEK), uint32(MONTH), uint32(YEAR), uint32(DECADE), uint32(CENTURY), uint32(MILLENIUM))
+
+//@ behavior C17.constructors
+//@   forall l, s string
+//@   ensures spec.Only(1, NotSet())
+//@   ensures spec.Only(2, NotImplemented(l, s))
+//@   ensures spec.Only(3, Invalid(l, s))
+//@   ensures spec.Only(4, Unsupported(l, s))
+//@   ensures spec.Only(5, Unrecognized(l, s))
+//@   ensures spec.Only(0, nil)
+
+//@ behavior C17.others
+//@   forall l, s string, k int
+//@   requires 1 <= k && k <= 5
+//@   ensures spec.Only(6, spec.OtherError(s))
+//@   ensures spec.Only(6, spec.Wrapped(s, k))
+
+//@ behavior C17.messages
+//@   forall l, s string
+//@   ensures NotSet().Error() != "" && NotImplemented(l, s).Error() != "" && Invalid(l, s).Error() != ""
+//@   ensures Unsupported(l, s).Error() != "" && Unrecognized(l, s).Error() != ""
-- 
2.43.0


From 11965f0e459806ec0491eec4b2badf9de82f11a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:05 +0000
Subject: [PATCH 29/39] verif: contracts for ParseString, comparison of strings
 and Unix ranges

---
 cmp/verif_contracts.go    | 38 ++++++++++++++++++++++++++++++++++++++
 parser/verif_contracts.go | 20 ++++++++++++++++++++
 unix/verif_contracts.go   | 17 +++++++++++++++++
 3 files changed, 75 insertions(+)
 create mode 100644 cmp/verif_contracts.go
 create mode 100644 unix/verif_contracts.go

diff --git a/cmp/verif_contracts.go b/cmp/verif_contracts.go
new file mode 100644
index 0000000..3b50293
--- /dev/null
+++ b/cmp/verif_contracts.go
@@ -0,0 +1,38 @@
+//go:build verif
+// +build verif
+
+package cmp
+
+//@ import "github.com/sfomuseum/go-edtf"
+//@ import "github.com/sfomuseum/go-edtf/parser"
+//@ import "github.com/sfomuseum/go-edtf/level2"
+
+//@ behavior C12.IsBefore
+//@   forall x, y string
+//@   abstracts parser.ParseString
+//@   requires !level2.IsSetRepresentation(x) && !level2.IsSetRepresentation(y)
+//@   do rx, ex := parser.ParseString(x)
+//@   do ry, ey := parser.ParseString(y)
+//@   do b, err := IsBefore(x, y)
+//@   ensures spec.StringBefore(b, err, x, rx, ex, ry, ey)
+
+//@ behavior C12.IsAfter
+//@   forall x, y string
+//@   abstracts parser.ParseString
+//@   requires !level2.IsSetRepresentation(x) && !level2.IsSetRepresentation(y)
+//@   do rx, ex := parser.ParseString(x)
+//@   do ry, ey := parser.ParseString(y)
+//@   do b, err := IsAfter(x, y)
+//@   ensures spec.StringAfter(b, err, x, rx, ex, ry, ey)
+
+//@ behavior C12.IsBetween
+//@   forall x, i, c string
+//@   abstracts parser.ParseString
+//@   requires !level2.IsSetRepresentation(x) && !level2.IsSetRepresentation(i) && !level2.IsSetRepresentation(c)
+//@   do rx, ex := parser.ParseString(x)
+//@   do var ri, rc *edtf.EDTFDate
+//@   do var ei, ec error
+//@   do if ex == nil { ri, ei = parser.ParseString(i) }
+//@   do if ex == nil && ei == nil { rc, ec = parser.ParseString(c) }
+//@   do b, err := IsBetween(x, i, c)
+//@   ensures spec.StringBetween(b, err, x, rx, ex, ri, ei, c, rc, ec)
diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index c440a6a..cf495a4 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -9,6 +9,26 @@ package parser
 //@ import "github.com/sfomuseum/go-edtf/level1"
 //@ import "github.com/sfomuseum/go-edtf/level2"
 
+//@ contract ParseString(edtf_str string) (r *edtf.EDTFDate, err error)
+//@   opaque
+//@   readonly
+//@   abstracts common.dateSpanFromYMD
+//@   requires level0.IsLevel0(edtf_str) || level1.IsLevel1(edtf_str) || !level2.IsSetRepresentation(edtf_str)
+//@   case level0.IsTimeInterval(edtf_str)
+//@   case level0.IsDateAndTime(edtf_str)
+//@   case level0.IsLevel0(edtf_str)
+//@   case plain level1.IsSeason(edtf_str)
+//@   case level1.IsExtendedInterval(edtf_str)
+//@   case level1.IsLevel1(edtf_str)
+//@   case level2.IsExponentialYear(edtf_str)
+//@   case plain level2.IsSignificantDigits(edtf_str)
+//@   case plain level2.IsSubYearGrouping(edtf_str)
+//@   case level2.IsGroupQualification(edtf_str)
+//@   case level2.IsIndividualQualification(edtf_str)
+//@   case level2.IsUnspecifiedDigit(edtf_str)
+//@   case level2.IsInterval(edtf_str)
+//@   returns spec.OpaqueResult(edtf_str, r, err)
+
 //@ behavior C01.validate
 //@   forall s string
 //@   do IsValid(s)
diff --git a/unix/verif_contracts.go b/unix/verif_contracts.go
new file mode 100644
index 0000000..3e15511
--- /dev/null
+++ b/unix/verif_contracts.go
@@ -0,0 +1,17 @@
+//go:build verif
+// +build verif
+
+package unix
+
+//@ import "github.com/sfomuseum/go-edtf/parser"
+//@ import "github.com/sfomuseum/go-edtf/level2"
+
+//@ behavior C13.DeriveRanges
+//@   forall s string
+//@   abstracts parser.ParseString
+//@   requires !level2.IsSetRepresentation(s)
+//@   do ok, r, err := DeriveRanges(s)
+//@   do d, perr := parser.ParseString(s)
+//@   do outer, inner := &DateSpan{}, &DateSpan{}
+//@   do if r != nil { outer, inner = r.Outer, r.Inner }
+//@   ensures spec.Ranges(ok, r != nil, outer.Start, outer.End, inner.Start, inner.End, err, s, d, perr)
-- 
2.43.0


From b20b2e67a99bdb4117510a8ee1d19e7a5f127e14 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:30:03 +0000
Subject: [PATCH 30/39] verif: contracts of the JSON encoding

---
 verif_contracts.go | 89 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 89 insertions(+)

diff --git a/verif_contracts.go b/verif_contracts.go
index 90587ee..a281d1d 100644
--- a/verif_contracts.go
+++ b/verif_contracts.go
@@ -3,6 +3,9 @@
 
 package edtf
 
+//@ import "encoding/json"
+//@ import "strconv"
+
 //@ behavior C12.before
 //@   forall de, ue string, d1, d2, d3, d4, u1, u2, u3, u4 int, dl, du, ul, uu bool
 //@   requires spec.InRange(d1) && spec.InRange(d2) && spec.InRange(d3) && spec.InRange(d4)
@@ -48,6 +51,92 @@ package edtf
 //@   do a, _ := d.After(d)
 //@   ensures !b && !a
 
+//@ behavior C14.encode
+//@   forall n int64
+//@   do ts, err := spec.Stamp(n)
+//@   do b, merr := ts.MarshalJSON()
+//@   ensures err == nil && merr == nil && ts.Unix() == n && string(b) == strconv.FormatInt(n, 10)
+
+//@ behavior C14.stamp-round-trip
+//@   forall n, old int64
+//@   do ts, _ := spec.Stamp(n)
+//@   do b, _ := ts.MarshalJSON()
+//@   do bare, err1 := spec.Stamp(old)
+//@   do err2 := bare.UnmarshalJSON(b)
+//@   do quoted, err3 := spec.Stamp(old)
+//@   do err4 := quoted.UnmarshalJSON([]byte("\"" + string(b) + "\""))
+//@   ensures err1 == nil && err2 == nil && err3 == nil && err4 == nil
+//@   ensures bare.Unix() == n && quoted.Unix() == n && ts.Unix() == n
+
+//@ behavior C14.decode
+//@   forall s string, old int64
+//@   requires spec.InLang(s, `^"?[^"]*"?$`)
+//@   case spec.InLang(s, `^-?(0|[1-9][0-9]*)$`)
+//@   case spec.InLang(s, `^"-?(0|[1-9][0-9]*)"$`)
+//@   case spec.InLang(s, `^"-?(0|[1-9][0-9]*)$`)
+//@   case spec.InLang(s, `^-?(0|[1-9][0-9]*)"$`)
+//@   case spec.InLang(s, `^"?[+-]?[0-9]+"?$`)
+//@   case spec.InLang(s, `^"`)
+//@   do ts, _ := spec.Stamp(old)
+//@   do err := ts.UnmarshalJSON([]byte(s))
+//@   ensures spec.Decoded(s, old, ts.Unix(), err)
+
+//@ behavior C14.members
+//@   forall e, f string, level int
+//@   requires spec.InLang(e, `^[ -~]*$`) && spec.InLang(f, `^[ -~]*$`)
+//@   do r := spec.Result(e, true, 1, 2, true, 3, 4)
+//@   do r.Level, r.Feature = level, f
+//@   do b, err := json.Marshal(r)
+//@   ensures err == nil
+//@   ensures spec.JSONText(b, "") == "{edtf,end,feature,level,start}"
+//@   ensures spec.JSONText(b, "start") == "{edtf,lower,upper}" && spec.JSONText(b, "end") == "{edtf,lower,upper}"
+//@   ensures spec.JSONText(b, "level") == strconv.Itoa(level)
+//@   ensures spec.JSONText(b, "start.lower.timestamp") == "1" && spec.JSONText(b, "start.upper.timestamp") == "2"
+//@   ensures spec.JSONText(b, "end.lower.timestamp") == "3" && spec.JSONText(b, "end.upper.timestamp") == "4"
+
+//@ behavior C14.date-members
+//@   forall dt string, stamp bool, ts int, ymd bool, y, m, d int, u, a, us, p, inc uint32, open, unknown bool
+//@   requires spec.InLang(dt, `^[0-9T:Z+-]*$`)
+//@   do x := spec.ADate(dt, stamp, ts, ymd, y, m, d, u, a, us, p, inc, open, unknown)
+//@   do b, err := json.Marshal(x)
+//@   ensures err == nil && spec.JSONText(b, "") == spec.DateMembers(x)
+
+//@ behavior C14.date-values
+//@   forall dt string, ts int, y, m, d int, u, a, us, p, inc uint32
+//@   requires spec.InLang(dt, `^[0-9T:Z+-]+$`) && u != 0 && a != 0 && us != 0 && p != 0 && inc != 0
+//@   do x := spec.ADate(dt, true, ts, true, y, m, d, u, a, us, p, inc, true, true)
+//@   do b, err := json.Marshal(x)
+//@   ensures err == nil && spec.JSONText(b, "datetime") == "\"" + dt + "\"" && spec.JSONText(b, "timestamp") == strconv.Itoa(ts)
+//@   ensures spec.JSONText(b, "ymd") == "{day,month,year}"
+//@   ensures spec.JSONText(b, "ymd.year") == strconv.Itoa(y) && spec.JSONText(b, "ymd.month") == strconv.Itoa(m) && spec.JSONText(b, "ymd.day") == strconv.Itoa(d)
+//@   ensures spec.JSONText(b, "uncertain") == strconv.Itoa(int(u)) && spec.JSONText(b, "approximate") == strconv.Itoa(int(a))
+//@   ensures spec.JSONText(b, "unspecified") == strconv.Itoa(int(us)) && spec.JSONText(b, "precision") == strconv.Itoa(int(p))
+//@   ensures spec.JSONText(b, "inclusivity") == strconv.Itoa(int(inc))
+//@   ensures spec.JSONText(b, "open") == "true" && spec.JSONText(b, "unknown") == "true"
+
+//@ behavior C14.date-round-trip
+//@   forall dt string, stamp bool, ts int, ymd bool, y, m, d int, u, a, us, p, inc uint32, open, unknown bool
+//@   requires spec.InLang(dt, `^[ -~]*$`)
+//@   do x := spec.ADate(dt, stamp, ts, ymd, y, m, d, u, a, us, p, inc, open, unknown)
+//@   do b, err := json.Marshal(x)
+//@   do var z *Date
+//@   do err2 := json.Unmarshal(b, &z)
+//@   ensures err == nil && err2 == nil && spec.Same(x, z)
+
+//@ behavior C14.round-trip
+//@   forall e, f, se, ee, dt1, dt2, dt3, dt4 string, level int, n1, n2, n3, n4, timed bool, t1, t2, t3, t4, y1, m1, d1, y2, m2, d2, y3, m3, d3, y4, m4, d4 int, u, a, us, p, inc, inc2 uint32, o1, o2, k1, k2 bool
+//@   requires spec.InLang(e, `^[ -~\x{17f}\x{212a}]*$`) && spec.InLang(f, `^[ -~]*$`) && spec.InLang(se, `^[ -~\x{17f}\x{212a}]*$`) && spec.InLang(ee, `^[ -~\x{17f}\x{212a}]*$`)
+//@   requires spec.InLang(dt1, `^[ -~]*$`) && spec.InLang(dt2, `^[ -~]*$`) && spec.InLang(dt3, `^[ -~]*$`) && spec.InLang(dt4, `^[ -~]*$`)
+//@   do sl := spec.ADate(dt1, n1, t1, !timed, y1, m1, d1, u, a, us, p, inc, o1, k1)
+//@   do su := spec.ADate(dt2, n2, t2, !timed, y2, m2, d2, u, a, us, p, inc, o1, k1)
+//@   do el := spec.ADate(dt3, n3, t3, !timed, y3, m3, d3, u, a, us, p, inc2, o2, k2)
+//@   do eu := spec.ADate(dt4, n4, t4, !timed, y4, m4, d4, u, a, us, p, inc2, o2, k2)
+//@   do r := &EDTFDate{Start: &DateRange{EDTF: se, Lower: sl, Upper: su}, End: &DateRange{EDTF: ee, Lower: el, Upper: eu}, EDTF: e, Level: level, Feature: f}
+//@   do b, err := json.Marshal(r)
+//@   do var z *EDTFDate
+//@   do err2 := json.Unmarshal(b, &z)
+//@   ensures err == nil && err2 == nil && spec.Same(r, z)
+
 //@ behavior C15.predicates
 //@   forall s string
 //@   ensures IsOpen(s) == (s == ".." || s == "open")
-- 
2.43.0


From 5db66b35abebe250a0a9d6d1ae336a94419345c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:03:53 +0000
Subject: [PATCH 31/39] verif: contracts of queries, comparison and
 single-member sets

---
 cmp/verif_contracts.go    |  7 +++++++
 parser/verif_contracts.go |  9 +++++++++
 unix/verif_contracts.go   |  6 ++++++
 verif_contracts.go        | 12 ++++++++++++
 4 files changed, 34 insertions(+)

diff --git a/cmp/verif_contracts.go b/cmp/verif_contracts.go
index 3b50293..399ab12 100644
--- a/cmp/verif_contracts.go
+++ b/cmp/verif_contracts.go
@@ -7,6 +7,13 @@ package cmp
 //@ import "github.com/sfomuseum/go-edtf/parser"
 //@ import "github.com/sfomuseum/go-edtf/level2"
 
+//@ behavior C01.compare
+//@   forall x, y string
+//@   abstracts parser.ParseString
+//@   requires !level2.IsSetRepresentation(x) && !level2.IsSetRepresentation(y)
+//@   do IsBefore(x, y)
+//@   do IsAfter(x, y)
+
 //@ behavior C12.IsBefore
 //@   forall x, y string
 //@   abstracts parser.ParseString
diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index cf495a4..46e63f7 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -765,3 +765,12 @@ package parser
 //@   requires !level2.IsLevel2(s)
 //@   do f, err := level2.Matches(s)
 //@   ensures f == "" && spec.Only(3, err)
+
+//@ behavior C08.one
+//@   bounded
+//@   forall a string, curly, from, until bool
+//@   abstracts common.dateSpanFromYMD
+//@   requires level0.IsDate(a) && !(from && until)
+//@   do sa, ea := common.DateSpanFromEDTF(a)
+//@   do r, err := ParseString(spec.SetText(curly, from, until, ",", a))
+//@   ensures spec.Set(r, err, curly, from, until, spec.Member{sa, ea})
diff --git a/unix/verif_contracts.go b/unix/verif_contracts.go
index 3e15511..f440c0f 100644
--- a/unix/verif_contracts.go
+++ b/unix/verif_contracts.go
@@ -6,6 +6,12 @@ package unix
 //@ import "github.com/sfomuseum/go-edtf/parser"
 //@ import "github.com/sfomuseum/go-edtf/level2"
 
+//@ behavior C01.derive
+//@   forall s string
+//@   abstracts parser.ParseString
+//@   requires !level2.IsSetRepresentation(s)
+//@   do DeriveRanges(s)
+
 //@ behavior C13.DeriveRanges
 //@   forall s string
 //@   abstracts parser.ParseString
diff --git a/verif_contracts.go b/verif_contracts.go
index a281d1d..b7d285e 100644
--- a/verif_contracts.go
+++ b/verif_contracts.go
@@ -6,6 +6,18 @@ package edtf
 //@ import "encoding/json"
 //@ import "strconv"
 
+//@ behavior C01.query
+//@   forall de, ue string, d1, d2, d3, d4, u1, u2, u3, u4 int, dl, du, ul, uu bool
+//@   requires spec.InRange(d1) && spec.InRange(d2) && spec.InRange(d3) && spec.InRange(d4)
+//@   requires spec.InRange(u1) && spec.InRange(u2) && spec.InRange(u3) && spec.InRange(u4)
+//@   do d := spec.Result(de, dl, d1, d2, du, d3, d4)
+//@   do u := spec.Result(ue, ul, u1, u2, uu, u3, u4)
+//@   do d.Lower()
+//@   do d.Upper()
+//@   do d.Before(u)
+//@   do d.After(u)
+//@   do _ = d.String()
+
 //@ behavior C12.before
 //@   forall de, ue string, d1, d2, d3, d4, u1, u2, u3, u4 int, dl, du, ul, uu bool
 //@   requires spec.InRange(d1) && spec.InRange(d2) && spec.InRange(d3) && spec.InRange(d4)
-- 
2.43.0


From bc9b787c2919710ca76f4bf07bf2b404271bbbf1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:24:24 +0000
Subject: [PATCH 32/39] verif: contracts of sets of two members

---
 parser/verif_contracts.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index 46e63f7..fe054a9 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -767,10 +767,25 @@ package parser
 //@   ensures f == "" && spec.Only(3, err)
 
 //@ behavior C08.one
-//@   bounded
+//@   bounded sets of one member
 //@   forall a string, curly, from, until bool
 //@   abstracts common.dateSpanFromYMD
+//@   abstracts len
 //@   requires level0.IsDate(a) && !(from && until)
 //@   do sa, ea := common.DateSpanFromEDTF(a)
-//@   do r, err := ParseString(spec.SetText(curly, from, until, ",", a))
+//@   do r, err := ParseString(spec.SetText(curly, from, until, a))
 //@   ensures spec.Set(r, err, curly, from, until, spec.Member{sa, ea})
+
+//@ behavior C08.two
+//@   bounded sets of two members
+//@   forall a, b string, curly, from, until, ranged bool
+//@   abstracts common.dateSpanFromYMD
+//@   abstracts len
+//@   requires level0.IsDate(a) && level0.IsDate(b) && !(ranged && (from || until))
+//@   case from
+//@   case until
+//@   case ranged
+//@   do sa, ea := common.DateSpanFromEDTF(a)
+//@   do sb, eb := common.DateSpanFromEDTF(b)
+//@   do r, err := ParseString(spec.SetText(curly, from, until, a, spec.Sep(ranged), b))
+//@   ensures spec.Set(r, err, curly, from, until, spec.Member{sa, ea}, spec.Member{sb, eb})
-- 
2.43.0


From 0f7dab60814002afb2c348717475a6277d6849e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:28 +0000
Subject: [PATCH 33/39] fix: a BCE date without a day could not be converted, a
 date with garbage before it could

YMDFromString took the two components of "-1985" for a year and a month, and
accepted any text before a date of four components. Also refuse a month or a day
that is not positive instead of taking it for one that is missing.
---
 common/ymd.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/common/ymd.go b/common/ymd.go
index 598ffa7..a4b3762 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -18,22 +18,27 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 	mm := ""
 	dd := ""
 
+	// The year of a BCE date is preceded by a minus sign.
+
+	sign := ""
+
+	if strings.HasPrefix(str_ymd, "-") {
+		sign = "-"
+		str_ymd = strings.TrimPrefix(str_ymd, "-")
+	}
+
 	parts := strings.Split(str_ymd, "-")
 
 	switch len(parts) {
-	case 4:
-		yyyy = "-" + parts[1]
-		mm = parts[2]
-		dd = parts[3]
 	case 3:
-		yyyy = parts[0]
+		yyyy = sign + parts[0]
 		mm = parts[1]
 		dd = parts[2]
 	case 2:
-		yyyy = parts[0]
+		yyyy = sign + parts[0]
 		mm = parts[1]
 	case 1:
-		yyyy = parts[0]
+		yyyy = sign + parts[0]
 	default:
 		return nil, errors.New("Invalid YMD string")
 	}
@@ -85,6 +90,10 @@ func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, e
 			return nil, err
 		}
 
+		if m < 1 {
+			return nil, errors.New("Invalid month")
+		}
+
 		mm = m
 	}
 
@@ -96,6 +105,10 @@ func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, e
 			return nil, err
 		}
 
+		if d < 1 {
+			return nil, errors.New("Invalid day")
+		}
+
 		dd = d
 	}
 
-- 
2.43.0


From 7954b2306fb39405e5c92e83b479ece1a6a725cd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:28 +0000
Subject: [PATCH 34/39] verif: contracts of the calendar arithmetic and of
 purity

---
 calendar/verif_contracts.go |  7 +++++++
 cmp/verif_contracts.go      | 18 +++++++++++++++++
 common/verif_contracts.go   | 38 ++++++++++++++++++++++++++++++++++++
 parser/verif_contracts.go   | 39 +++++++++++++++++++++++++++++++++++++
 unix/verif_contracts.go     | 10 ++++++++++
 verif_contracts.go          | 16 +++++++++++++++
 6 files changed, 128 insertions(+)

diff --git a/calendar/verif_contracts.go b/calendar/verif_contracts.go
index 175e8f2..24f6c0f 100644
--- a/calendar/verif_contracts.go
+++ b/calendar/verif_contracts.go
@@ -7,3 +7,10 @@ package calendar
 //@   property C18
 //@   requires -9999 <= yyyy && yyyy <= 9999
 //@   returns spec.DaysInMonth(yyyy, mm)
+
+//@ behavior C18.days-in-month-text
+//@   forall sign, y, m string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`)
+//@   do n, err := DaysInMonthWithString(sign + y + "-" + m)
+//@   do w, werr := spec.DaysInMonth(spec.YearOf(sign, y), spec.Num(m))
+//@   ensures n == w && (err == nil) == (werr == nil)
diff --git a/cmp/verif_contracts.go b/cmp/verif_contracts.go
index 399ab12..770607f 100644
--- a/cmp/verif_contracts.go
+++ b/cmp/verif_contracts.go
@@ -43,3 +43,21 @@ package cmp
 //@   do if ex == nil && ei == nil { rc, ec = parser.ParseString(c) }
 //@   do b, err := IsBetween(x, i, c)
 //@   ensures spec.StringBetween(b, err, x, rx, ex, ri, ei, c, rc, ec)
+
+//@ behavior C19.compare
+//@   forall x, y string
+//@   abstracts parser.ParseString
+//@   requires !level2.IsSetRepresentation(x) && !level2.IsSetRepresentation(y)
+//@   do b, berr := IsBefore(x, y)
+//@   do a, aerr := IsAfter(x, y)
+//@   do b2, berr2 := IsBefore(x, y)
+//@   do a2, aerr2 := IsAfter(x, y)
+//@   ensures b == b2 && (berr == nil) == (berr2 == nil) && a == a2 && (aerr == nil) == (aerr2 == nil)
+
+//@ behavior C19.between
+//@   forall x, i, c string
+//@   abstracts parser.ParseString
+//@   requires !level2.IsSetRepresentation(x) && !level2.IsSetRepresentation(i) && !level2.IsSetRepresentation(c)
+//@   do b, err := IsBetween(x, i, c)
+//@   do b2, err2 := IsBetween(x, i, c)
+//@   ensures b == b2 && (err == nil) == (err2 == nil)
diff --git a/common/verif_contracts.go b/common/verif_contracts.go
index d839290..880720d 100644
--- a/common/verif_contracts.go
+++ b/common/verif_contracts.go
@@ -4,6 +4,7 @@
 package common
 
 //@ import "github.com/sfomuseum/go-edtf"
+//@ import "fmt"
 
 //@ contract dateSpanFromYMD(edtf_str string) (span *edtf.DateSpan, err error)
 //@   opaque
@@ -35,3 +36,40 @@ package common
 //@   case spec.InLang(edtf_str, `^-?[0-9X]{4}[?~%]-[?~%][0-9X]{2}-[?~%]?[0-9X]{2}[?~%]?$`)
 //@   case spec.InLang(edtf_str, `^-?[0-9X]{4}[?~%]-[?~%]?[0-9X]{2}[?~%]?-[?~%]?[0-9X]{2}[?~%]?$`)
 //@   returns spec.OpaqueSpan(edtf_str, span, err)
+
+//@ behavior C18.year
+//@   forall sign, y string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`)
+//@   do d, err := YMDFromString(sign + y)
+//@   ensures spec.IsYMD(d, err, spec.YearOf(sign, y), 1, 31)
+
+//@ behavior C18.year-month
+//@   forall sign, y, m string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`)
+//@   do d, err := YMDFromString(sign + y + "-" + m)
+//@   ensures spec.YMDOrRefused(d, err, spec.YearOf(sign, y), spec.Num(m), spec.MonthLen(spec.YearOf(sign, y), spec.Num(m)))
+
+//@ behavior C18.day
+//@   forall sign, y, m, d string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(d, `^[0-9]{2}$`)
+//@   do r, err := YMDFromString(sign + y + "-" + m + "-" + d)
+//@   ensures spec.YMDOrRefused(r, err, spec.YearOf(sign, y), spec.Num(m), spec.Num(d))
+
+//@ behavior C18.parts
+//@   forall sign, y, m, d string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^([0-9]{2})?$`) && spec.InLang(d, `^([0-9]{2})?$`)
+//@   do r, err := YMDFromStringDate(&StringDate{Year: sign + y, Month: m, Day: d})
+//@   ensures spec.PartsOrRefused(r, err, spec.YearOf(sign, y), m, d)
+
+//@ behavior C18.time
+//@   forall sign, y, m, d, hh, mm, ss string
+//@   requires spec.InLang(sign, `^-?$`) && spec.InLang(y, `^[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(d, `^[0-9]{2}$`)
+//@   requires spec.InLang(hh, `^([01][0-9]|2[0-3])$`) && spec.InLang(mm, `^[0-5][0-9]$`) && spec.InLang(ss, `^[0-5][0-9]$`)
+//@   do t, err := TimeWithYMDString(sign + y, m, d, hh + ":" + mm + ":" + ss)
+//@   ensures spec.TimeOrRefused(t, err, spec.YearOf(sign, y), spec.Num(m), spec.Num(d), spec.Num(hh), spec.Num(mm), spec.Num(ss))
+
+//@ behavior C18.ymd-time
+//@   forall y, m, d, hh, mm, ss int
+//@   requires -9999 <= y && y <= 9999 && spec.Exists(y, m, d) && 0 <= hh && hh <= 23 && 0 <= mm && mm <= 59 && 0 <= ss && ss <= 59
+//@   do t, err := TimeWithYMD(&edtf.YMD{Year: y, Month: m, Day: d}, fmt.Sprintf("%02d:%02d:%02d", hh, mm, ss))
+//@   ensures spec.TimeOrRefused(t, err, y, m, d, hh, mm, ss)
diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index fe054a9..3722b72 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -789,3 +789,42 @@ package parser
 //@   do sb, eb := common.DateSpanFromEDTF(b)
 //@   do r, err := ParseString(spec.SetText(curly, from, until, a, spec.Sep(ranged), b))
 //@   ensures spec.Set(r, err, curly, from, until, spec.Member{sa, ea}, spec.Member{sb, eb})
+
+//@ behavior C19.parse
+//@   forall s string
+//@   requires !level0.IsTimeInterval(s) && !level2.IsInterval(s)
+//@   requires level0.IsLevel0(s) || level1.IsLevel1(s) || !level2.IsSetRepresentation(s)
+//@   case level0.IsDateAndTime(s)
+//@   case level0.IsLevel0(s)
+//@   case level1.IsSeason(s)
+//@   case level1.IsLevel1(s)
+//@   case level2.IsExponentialYear(s)
+//@   case level2.IsSignificantDigits(s)
+//@   case level2.IsSubYearGrouping(s)
+//@   case level2.IsGroupQualification(s)
+//@   case level2.IsIndividualQualification(s)
+//@   case level2.IsUnspecifiedDigit(s)
+//@   do r, err := ParseString(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := ParseString(s)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C19.parse-interval
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   requires level0.IsTimeInterval(s) || level2.IsInterval(s)
+//@   case level0.IsTimeInterval(s)
+//@   do r, err := ParseString(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := ParseString(s)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C19.validate
+//@   forall s string
+//@   do v := IsValid(s)
+//@   do l, f, err := Matches(s)
+//@   do again := IsValid(s)
+//@   do al, af, aerr := Matches(s)
+//@   ensures v == again && l == al && f == af && (err == nil) == (aerr == nil)
diff --git a/unix/verif_contracts.go b/unix/verif_contracts.go
index f440c0f..a9308f4 100644
--- a/unix/verif_contracts.go
+++ b/unix/verif_contracts.go
@@ -21,3 +21,13 @@ package unix
 //@   do outer, inner := &DateSpan{}, &DateSpan{}
 //@   do if r != nil { outer, inner = r.Outer, r.Inner }
 //@   ensures spec.Ranges(ok, r != nil, outer.Start, outer.End, inner.Start, inner.End, err, s, d, perr)
+
+//@ behavior C19.derive
+//@   forall s string
+//@   abstracts parser.ParseString
+//@   requires !level2.IsSetRepresentation(s)
+//@   do ok, r, err := DeriveRanges(s)
+//@   do spec.Freeze(r)
+//@   do ok2, r2, err2 := DeriveRanges(s)
+//@   ensures spec.Fresh(r, r2)
+//@   ensures ok == ok2 && spec.Same(r, r2) && (err == nil) == (err2 == nil)
diff --git a/verif_contracts.go b/verif_contracts.go
index b7d285e..9f45fbe 100644
--- a/verif_contracts.go
+++ b/verif_contracts.go
@@ -210,3 +210,19 @@ package edtf
 //@   forall l, s string
 //@   ensures NotSet().Error() != "" && NotImplemented(l, s).Error() != "" && Invalid(l, s).Error() != ""
 //@   ensures Unsupported(l, s).Error() != "" && Unrecognized(l, s).Error() != ""
+
+//@ behavior C19.query
+//@   forall de, ue string, d1, d2, d3, d4, u1, u2, u3, u4 int, dl, du, ul, uu bool
+//@   requires spec.InRange(d1) && spec.InRange(d2) && spec.InRange(d3) && spec.InRange(d4)
+//@   requires spec.InRange(u1) && spec.InRange(u2) && spec.InRange(u3) && spec.InRange(u4)
+//@   do d := spec.Result(de, dl, d1, d2, du, d3, d4)
+//@   do u := spec.Result(ue, ul, u1, u2, uu, u3, u4)
+//@   do spec.Freeze(d, u)
+//@   do d.Lower()
+//@   do d.Upper()
+//@   do _ = d.String()
+//@   do b, berr := d.Before(u)
+//@   do a, aerr := d.After(u)
+//@   do b2, berr2 := d.Before(u)
+//@   do a2, aerr2 := d.After(u)
+//@   ensures b == b2 && (berr == nil) == (berr2 == nil) && a == a2 && (aerr == nil) == (aerr2 == nil)
-- 
2.43.0


From 9790b16c48521893de865231993387473d4fd853 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 35/39] verif: C19 covers the text of each side

---
 verif_contracts.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verif_contracts.go b/verif_contracts.go
index 9f45fbe..82a2555 100644
--- a/verif_contracts.go
+++ b/verif_contracts.go
@@ -212,11 +212,12 @@ package edtf
 //@   ensures Unsupported(l, s).Error() != "" && Unrecognized(l, s).Error() != ""
 
 //@ behavior C19.query
-//@   forall de, ue string, d1, d2, d3, d4, u1, u2, u3, u4 int, dl, du, ul, uu bool
+//@   forall de, ue, ds, df, us, uf string, d1, d2, d3, d4, u1, u2, u3, u4 int, dl, du, ul, uu bool
 //@   requires spec.InRange(d1) && spec.InRange(d2) && spec.InRange(d3) && spec.InRange(d4)
 //@   requires spec.InRange(u1) && spec.InRange(u2) && spec.InRange(u3) && spec.InRange(u4)
 //@   do d := spec.Result(de, dl, d1, d2, du, d3, d4)
 //@   do u := spec.Result(ue, ul, u1, u2, uu, u3, u4)
+//@   do d.Start.EDTF, d.End.EDTF, u.Start.EDTF, u.End.EDTF = ds, df, us, uf
 //@   do spec.Freeze(d, u)
 //@   do d.Lower()
 //@   do d.Upper()
-- 
2.43.0


From f4dcbdbabecf05ce51a59a5cd5ba8fa8a2a4e558 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 36/39] verif: C05 covers both sides of a span

---
 common/verif_contracts.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/common/verif_contracts.go b/common/verif_contracts.go
index 880720d..fb8acfc 100644
--- a/common/verif_contracts.go
+++ b/common/verif_contracts.go
@@ -73,3 +73,37 @@ package common
 //@   requires -9999 <= y && y <= 9999 && spec.Exists(y, m, d) && 0 <= hh && hh <= 23 && 0 <= mm && mm <= 59 && 0 <= ss && ss <= 59
 //@   do t, err := TimeWithYMD(&edtf.YMD{Year: y, Month: m, Day: d}, fmt.Sprintf("%02d:%02d:%02d", hh, mm, ss))
 //@   ensures spec.TimeOrRefused(t, err, y, m, d, hh, mm, ss)
+
+//@ behavior C05.both-sides
+//@   forall ly, y, ry, lm, m, rm, ld, d, rd string
+//@   requires spec.InLang(y, `^-?[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`) && spec.InLang(d, `^[0-9]{2}$`)
+//@   requires spec.InLang(ly, `^[?~%]?$`) && spec.InLang(lm, `^[?~%]?$`) && spec.InLang(ld, `^[?~%]?$`)
+//@   requires spec.InLang(ry, `^[?~%]?$`) && spec.InLang(rm, `^[?~%]?$`) && spec.InLang(rd, `^[?~%]?$`)
+//@   requires (ly == "" || ry == "") && (lm == "" || rm == "") && (ld == "" || rd == "")
+//@   do bare, berr := DateSpanFromEDTF(y + "-" + m + "-" + d)
+//@   do sp, err := DateSpanFromEDTF(ly + y + ry + "-" + lm + m + rm + "-" + ld + d + rd)
+//@   ensures spec.Qualified(sp, err, bare, berr, ly, ry, lm, rm, ld, rd)
+
+//@ behavior C05.both-sides-month
+//@   forall ly, y, ry, lm, m, rm string
+//@   requires spec.InLang(y, `^-?[0-9]{4}$`) && spec.InLang(m, `^[0-9]{2}$`)
+//@   requires spec.InLang(ly, `^[?~%]?$`) && spec.InLang(lm, `^[?~%]?$`)
+//@   requires spec.InLang(ry, `^[?~%]?$`) && spec.InLang(rm, `^[?~%]?$`)
+//@   requires (ly == "" || ry == "") && (lm == "" || rm == "")
+//@   do bare, berr := DateSpanFromEDTF(y + "-" + m)
+//@   do sp, err := DateSpanFromEDTF(ly + y + ry + "-" + lm + m + rm)
+//@   ensures spec.Qualified(sp, err, bare, berr, ly, ry, lm, rm, "", "")
+
+//@ behavior C05.unspecified
+//@   forall ly, y, ry, lm, m, rm, ld, d, rd string
+//@   requires spec.InLang(y, `^-?[0-9X]{4}$`) && spec.InLang(m, `^[0-9X]{2}$`) && spec.InLang(d, `^[0-9X]{2}$`)
+//@   requires spec.InLang(ly, `^[?~%]?$`) && spec.InLang(lm, `^[?~%]?$`) && spec.InLang(ld, `^[?~%]?$`)
+//@   requires spec.InLang(ry, `^[?~%]?$`) && spec.InLang(rm, `^[?~%]?$`) && spec.InLang(rd, `^[?~%]?$`)
+//@   requires (ly == "" || ry == "") && (lm == "" || rm == "") && (ld == "" || rd == "")
+//@   case rd != ""
+//@   case ld != ""
+//@   case rm != ""
+//@   case lm != ""
+//@   do bare, berr := DateSpanFromEDTF(y + "-" + m + "-" + d)
+//@   do sp, err := DateSpanFromEDTF(ly + y + ry + "-" + lm + m + rm + "-" + ld + d + rd)
+//@   ensures spec.Qualified(sp, err, bare, berr, ly, ry, lm, rm, ld, rd)
-- 
2.43.0


From af6e4e1b61542533275e483415934ab2edc48ffa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 37/39] verif: contracts of the parsing functions of each level
 and feature, and of errors of other types

---
 parser/verif_contracts.go | 460 ++++++++++++++++++++++++++++++++++++++
 verif_contracts.go        |   5 +
 2 files changed, 465 insertions(+)

diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index 3722b72..5d55cb9 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -828,3 +828,463 @@ package parser
 //@   do again := IsValid(s)
 //@   do al, af, aerr := Matches(s)
 //@   ensures v == again && l == al && f == af && (err == nil) == (aerr == nil)
+
+//@ behavior C01.level0.ParseDate
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level0.ParseDate(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level0.ParseDate(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level0.ParseDate
+//@   forall s string
+//@   requires level0.IsDate(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level0.ParseDate(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 0, level0.DATE)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level0.ParseDateAndTime
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level0.ParseDateAndTime(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level0.ParseDateAndTime(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level0.ParseDateAndTime
+//@   forall s string
+//@   requires level0.IsDateAndTime(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level0.ParseDateAndTime(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 0, level0.DATE_AND_TIME)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level0.ParseTimeInterval
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level0.ParseTimeInterval(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level0.ParseTimeInterval(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level0.ParseTimeInterval
+//@   forall s string
+//@   requires level0.IsTimeInterval(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level0.ParseTimeInterval(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 0, level0.TIME_INTERVAL)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level1.ParseLetterPrefixedCalendarYear
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseLetterPrefixedCalendarYear(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level1.ParseLetterPrefixedCalendarYear(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level1.ParseLetterPrefixedCalendarYear
+//@   forall s string
+//@   requires level1.IsLetterPrefixedCalendarYear(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseLetterPrefixedCalendarYear(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 1, level1.LETTER_PREFIXED_CALENDAR_YEAR)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level1.ParseSeason
+//@   property C19
+//@   forall s string
+//@   do r, err := level1.ParseSeason(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level1.ParseSeason(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level1.ParseSeason
+//@   forall s string
+//@   requires level1.IsSeason(s)
+//@   do r, err := level1.ParseSeason(s)
+//@   ensures spec.Reports(r, err, s, 1, level1.SEASON)
+
+//@ behavior C01.level1.ParseQualifiedDate
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseQualifiedDate(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level1.ParseQualifiedDate(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level1.ParseQualifiedDate
+//@   forall s string
+//@   requires level1.IsQualifiedDate(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseQualifiedDate(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 1, level1.QUALIFIED_DATE)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level1.ParseUnspecifiedDigits
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseUnspecifiedDigits(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level1.ParseUnspecifiedDigits(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level1.ParseUnspecifiedDigits
+//@   forall s string
+//@   requires level1.IsUnspecifiedDigits(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseUnspecifiedDigits(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 1, level1.UNSPECIFIED_DIGITS)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level1.ParseNegativeCalendarYear
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseNegativeCalendarYear(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level1.ParseNegativeCalendarYear(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level1.ParseNegativeCalendarYear
+//@   forall s string
+//@   requires level1.IsNegativeCalendarYear(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseNegativeCalendarYear(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 1, level1.NEGATIVE_CALENDAR_YEAR)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level1.ParseExtendedIntervalStart
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseExtendedIntervalStart(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level1.ParseExtendedIntervalStart(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level1.ParseExtendedIntervalStart
+//@   forall s string
+//@   requires level1.IsExtendedInterval(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseExtendedIntervalStart(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 1, level1.EXTENDED_INTERVAL_START)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+
+//@ behavior C01.level1.ParseExtendedIntervalEnd
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseExtendedIntervalEnd(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level1.ParseExtendedIntervalEnd(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level1.ParseExtendedIntervalEnd
+//@   forall s string
+//@   requires level1.IsExtendedInterval(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseExtendedIntervalEnd(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 1, level1.EXTENDED_INTERVAL_END)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+
+//@ behavior C01.level1.ParseExtendedInterval
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseExtendedInterval(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level1.ParseExtendedInterval(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level1.ParseExtendedInterval
+//@   forall s string
+//@   requires level1.IsExtendedInterval(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level1.ParseExtendedInterval(s)
+//@   do p, perr := ParseString(s)
+//@   ensures err != nil || r.EDTF == s && r.Level == 1 && (r.Feature == level1.EXTENDED_INTERVAL_START || r.Feature == level1.EXTENDED_INTERVAL_END)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level2.ParseExponentialYear
+//@   property C19
+//@   forall s string
+//@   do r, err := level2.ParseExponentialYear(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level2.ParseExponentialYear(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level2.ParseExponentialYear
+//@   forall s string
+//@   requires level2.IsExponentialYear(s)
+//@   do r, err := level2.ParseExponentialYear(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 2, level2.EXPONENTIAL_YEAR)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level2.ParseSignificantDigits
+//@   property C19
+//@   forall s string
+//@   do r, err := level2.ParseSignificantDigits(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level2.ParseSignificantDigits(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level2.ParseSignificantDigits
+//@   forall s string
+//@   requires level2.IsSignificantDigits(s)
+//@   do r, err := level2.ParseSignificantDigits(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 2, level2.SIGNIFICANT_DIGITS)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level2.ParseSubYearGroupings
+//@   property C19
+//@   forall s string
+//@   do r, err := level2.ParseSubYearGroupings(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level2.ParseSubYearGroupings(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level2.ParseSubYearGroupings
+//@   forall s string
+//@   requires level2.IsSubYearGrouping(s)
+//@   do r, err := level2.ParseSubYearGroupings(s)
+//@   ensures spec.Reports(r, err, s, 2, level2.SUB_YEAR_GROUPINGS)
+
+//@ behavior C01.level2.ParseGroupQualification
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level2.ParseGroupQualification(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level2.ParseGroupQualification(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level2.ParseGroupQualification
+//@   forall s string
+//@   requires !level1.IsSeason(s) && !level2.IsSubYearGrouping(s)
+//@   requires level2.IsGroupQualification(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level2.ParseGroupQualification(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 2, level2.GROUP_QUALIFICATION)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level2.ParseIndividualQualification
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level2.ParseIndividualQualification(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level2.ParseIndividualQualification(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level2.ParseIndividualQualification
+//@   forall s string
+//@   requires !level1.IsSeason(s) && !level2.IsSubYearGrouping(s)
+//@   requires level2.IsIndividualQualification(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level2.ParseIndividualQualification(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 2, level2.INDIVIDUAL_QUALIFICATION)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level2.ParseUnspecifiedDigit
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level2.ParseUnspecifiedDigit(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level2.ParseUnspecifiedDigit(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level2.ParseUnspecifiedDigit
+//@   forall s string
+//@   requires !level1.IsSeason(s) && !level2.IsSubYearGrouping(s)
+//@   requires level2.IsUnspecifiedDigit(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level2.ParseUnspecifiedDigit(s)
+//@   do p, perr := ParseString(s)
+//@   ensures spec.Reports(r, err, s, 2, level2.UNSPECIFIED_DIGIT)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.level2.ParseInterval
+//@   property C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level2.ParseInterval(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level2.ParseInterval(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level2.ParseInterval
+//@   forall s string
+//@   requires level2.IsInterval(s)
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level2.ParseInterval(s)
+//@   ensures spec.Reports(r, err, s, 2, level2.INTERVAL)
+
+//@ behavior C01.level0.ParseString
+//@   property C10 C19
+//@   forall s string
+//@   requires !level0.IsTimeInterval(s)
+//@   case level0.IsDateAndTime(s)
+//@   do r, err := level0.ParseString(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level0.ParseString(s)
+//@   do f, ferr := level0.Matches(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures err != nil || ferr == nil && spec.Reports(r, err, s, 0, f)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C01.level0.ParseString-interval
+//@   property C10 C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   requires level0.IsTimeInterval(s)
+//@   do r, err := level0.ParseString(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level0.ParseString(s)
+//@   do f, ferr := level0.Matches(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures err != nil || ferr == nil && spec.Reports(r, err, s, 0, f)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C01.level1.ParseString
+//@   property C10 C19
+//@   forall s string
+//@   requires !level1.IsExtendedInterval(s)
+//@   case level1.IsSeason(s)
+//@   case level1.IsLetterPrefixedCalendarYear(s)
+//@   do r, err := level1.ParseString(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level1.ParseString(s)
+//@   do f, ferr := level1.Matches(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures err != nil || ferr == nil && spec.Reports(r, err, s, 1, f)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C01.level1.ParseString-interval
+//@   property C10 C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   requires level1.IsExtendedInterval(s)
+//@   do r, err := level1.ParseString(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level1.ParseString(s)
+//@   do f, ferr := level1.Matches(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures err != nil || ferr == nil && spec.Reports(r, err, s, 1, f)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C01.level2.ParseString
+//@   property C10 C19
+//@   forall s string
+//@   requires !level2.IsInterval(s)
+//@   requires !level2.IsSetRepresentation(s)
+//@   case level2.IsExponentialYear(s)
+//@   case level2.IsSignificantDigits(s)
+//@   case level2.IsSubYearGrouping(s)
+//@   do r, err := level2.ParseString(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level2.ParseString(s)
+//@   do f, ferr := level2.Matches(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures err != nil || ferr == nil && spec.Reports(r, err, s, 2, f)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C01.level2.ParseString-interval
+//@   property C10 C19
+//@   forall s string
+//@   abstracts common.dateSpanFromYMD
+//@   requires level2.IsInterval(s)
+//@   requires !level2.IsSetRepresentation(s)
+//@   do r, err := level2.ParseString(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := level2.ParseString(s)
+//@   do f, ferr := level2.Matches(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures err != nil || ferr == nil && spec.Reports(r, err, s, 2, f)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Kind(err) == spec.Kind(aerr)
+
+//@ behavior C10.level2.ParseInterval-elsewhere
+//@   forall s string
+//@   requires level2.IsInterval(s) && (level0.IsTimeInterval(s) || level1.IsExtendedInterval(s))
+//@   abstracts common.dateSpanFromYMD
+//@   do r, err := level2.ParseInterval(s)
+//@   do p, perr := ParseString(s)
+//@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
+//@   ensures (err == nil) == (perr == nil)
diff --git a/verif_contracts.go b/verif_contracts.go
index 82a2555..262578e 100644
--- a/verif_contracts.go
+++ b/verif_contracts.go
@@ -206,6 +206,11 @@ package edtf
 //@   ensures spec.Only(6, spec.OtherError(s))
 //@   ensures spec.Only(6, spec.Wrapped(s, k))
 
+//@ behavior C17.foreign
+//@   forall n int, s string, k int, b bool
+//@   requires 0 <= n && n <= 10 && 1 <= k && k <= 5
+//@   ensures spec.Only(6, spec.ForeignError(n, s, k, b))
+
 //@ behavior C17.messages
 //@   forall l, s string
 //@   ensures NotSet().Error() != "" && NotImplemented(l, s).Error() != "" && Invalid(l, s).Error() != ""
-- 
2.43.0


From 57d2758d25745e4d3f6244f2eb5754e816e0ac59 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:26 +0000
Subject: [PATCH 38/39] verif: sets under the contracts of C01, C10, C11 and
 C19 (bounded)

---
 parser/verif_contracts.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index 5d55cb9..079ad37 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -1288,3 +1288,36 @@ package parser
 //@   do p, perr := ParseString(s)
 //@   ensures err != nil || perr == nil && spec.Same(r.Start, p.Start) && spec.Same(r.End, p.End)
 //@   ensures (err == nil) == (perr == nil)
+
+//@ behavior C01.set-of-one
+//@   property C10 C11 C19
+//@   bounded sets of one member
+//@   forall a string, curly, from, until bool
+//@   abstracts common.dateSpanFromYMD
+//@   requires level0.IsDate(a)
+//@   do s := spec.SetText(curly, from, until, a)
+//@   do r, err := ParseString(s)
+//@   do spec.Freeze(r)
+//@   do again, aerr := ParseString(s)
+//@   do f, ferr := level2.ParseSetRepresentations(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Reports(r, err, s, 2, level2.SET_REPRESENTATIONS)
+//@   ensures spec.Fresh(r, again)
+//@   ensures spec.Same(r, again) && spec.Same(r, f) && spec.Kind(err) == spec.Kind(aerr) && spec.Kind(err) == spec.Kind(ferr)
+//@   ensures err != nil || spec.SideAgrees(r.Start, false) && spec.SideAgrees(r.End, false) && spec.Accessors(r)
+
+//@ behavior C01.set-of-two
+//@   property C10 C19
+//@   bounded sets of two members
+//@   forall a, b string, curly, from, until, ranged bool
+//@   abstracts common.dateSpanFromYMD
+//@   abstracts len
+//@   requires level0.IsDate(a) && level0.IsDate(b)
+//@   case ranged
+//@   case from
+//@   case until
+//@   do s := spec.SetText(curly, from, until, a, spec.Sep(ranged), b)
+//@   do r, err := ParseString(s)
+//@   ensures spec.Complete(r, err)
+//@   ensures spec.Reports(r, err, s, 2, level2.SET_REPRESENTATIONS)
+//@   ensures spec.Fresh(r, nil)
-- 
2.43.0


From 3f958376482ccbe2a53eb8ebc031ac1c1615d624 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 39/39] verif: C16 covers letter years, seasons, exponents,
 significant digits and sub-year groupings

---
 parser/verif_contracts.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/verif_contracts.go b/parser/verif_contracts.go
index 079ad37..df3f74a 100644
--- a/parser/verif_contracts.go
+++ b/parser/verif_contracts.go
@@ -1321,3 +1321,13 @@ package parser
 //@   ensures spec.Complete(r, err)
 //@   ensures spec.Reports(r, err, s, 2, level2.SET_REPRESENTATIONS)
 //@   ensures spec.Fresh(r, nil)
+
+//@ behavior C16.other-features
+//@   forall s string
+//@   case level1.IsLetterPrefixedCalendarYear(s)
+//@   case level1.IsSeason(s)
+//@   case level2.IsExponentialYear(s)
+//@   case level2.IsSignificantDigits(s)
+//@   requires level1.IsLetterPrefixedCalendarYear(s) || level1.IsSeason(s) || level2.IsExponentialYear(s) || level2.IsSignificantDigits(s) || level2.IsSubYearGrouping(s)
+//@   do r, err := ParseString(s)
+//@   ensures spec.PrecIfParsed(r, err, edtf.YEAR)
-- 
2.43.0

