From 2cbcc2bab631736f9fde976263539876588da78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 01/11] fix: keep the sign of out-of-range values in krosh()

---
 include/floaxie/krosh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c002459..359eb36 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -575,6 +575,9 @@ namespace floaxie
 						ret.status = conversion_status::overflow;
 					}
 
+					if (!mp.sign)
+						ret.value = -ret.value;
+
 					ret.str_end = ep.str_end;
 					ret.is_accurate = true;
 
-- 
2.43.0


From 0a9ee9389dbc2603985392487f9ebe73fccd2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 02/11] fix: detect overflow and propagate rounding carry in
 diy_fp::downsample()

---
 include/floaxie/diy_fp.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 0a643f4..2a30186 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -203,7 +203,7 @@ namespace floaxie
 
 			const auto f(m_f);
 
-			if (m_e >= std::numeric_limits<FloatType>::max_exponent)
+			if (m_e + int(my_mantissa_size) > std::numeric_limits<FloatType>::max_exponent)
 			{
 				ret.value = huge_value<FloatType>();
 				ret.status = conversion_status::overflow;
@@ -227,11 +227,15 @@ namespace floaxie
 			parts <<= mantissa_bit_size;
 
 			const auto& round(round_up(f, shift_amount));
-			parts |= ((f >> shift_amount) + round.value) & mantissa_mask;
+			parts |= (f >> shift_amount) & mantissa_mask;
+			parts += round.value; // carry, if any, should go to the exponent
 
 			ret.value = type_punning_cast<FloatType>(parts);
 			ret.is_accurate = round.is_accurate;
 
+			if (ret.value == huge_value<FloatType>())
+				ret.status = conversion_status::overflow;
+
 			return ret;
 		}
 
-- 
2.43.0


From b76abc25c36027ed0a5a4e3b1d9765c6c9ed7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 03/11] fix: don't flush values next to the minimum subnormal
 to zero in diy_fp::downsample()

---
 include/floaxie/diy_fp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 2a30186..d2f8796 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -214,6 +214,8 @@ namespace floaxie
 			{
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
+				// values close to the half of the minimum subnormal might be still rounded up to it
+				ret.is_accurate = m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - 2;
 				return ret;
 			}
 
-- 
2.43.0


From b1100d907ed401f640a75e919a6539797b229f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 04/11] fix: consider mantissa error when detecting if rounding
 is accurate

---
 include/floaxie/diy_fp.h | 11 +++++++++--
 include/floaxie/krosh.h  | 21 +++++++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index d2f8796..d7a6029 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -181,9 +181,13 @@ namespace floaxie
 		 * and the whole `diy_fp` value is normalized, otherwise the behaviour is
 		 * undefined.
 		 *
+		 * \param error upper bound of the absolute error of the mantissa value
+		 * (i.e. of its difference from the value it approximates), to detect
+		 * if the error might affect the rounding.
+		 *
 		 * \return result structure with floating point value of the specified type.
 		 */
-		downsample_result downsample()
+		downsample_result downsample(mantissa_storage_type error = 0)
 		{
 			downsample_result ret;
 
@@ -233,7 +237,10 @@ namespace floaxie
 			parts += round.value; // carry, if any, should go to the exponent
 
 			ret.value = type_punning_cast<FloatType>(parts);
-			ret.is_accurate = round.is_accurate;
+
+			const mantissa_storage_type tail(f & mask<mantissa_storage_type>(shift_amount));
+			const mantissa_storage_type half(raised_bit<mantissa_storage_type>(shift_amount - 1));
+			ret.is_accurate = (tail > half ? tail - half : half - tail) > error;
 
 			if (ret.value == huge_value<FloatType>())
 				ret.status = conversion_status::overflow;
diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 359eb36..d086407 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -36,6 +36,10 @@ namespace floaxie
 	/** \brief Maximum number of decimal digits mantissa of `diy_fp` can hold. */
 	template<typename FloatType> constexpr std::size_t decimal_q = std::numeric_limits<typename diy_fp<FloatType>::mantissa_storage_type>::digits10;
 
+	/** \brief Upper bound of error (in units of the last place) of mantissa
+	 * value, when not all the decimal digits are packed in it. */
+	constexpr std::size_t truncated_mantissa_error(4);
+
 	/** \brief Maximum number of necessary binary digits of fraction part. */
 	constexpr std::size_t fraction_binary_digits(7);
 
@@ -186,7 +190,7 @@ namespace floaxie
 	template<typename FloatType, typename CharType> struct digit_parse_result
 	{
 		/** \brief Pre-initializes members to sane values. */
-		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true) { }
+		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), truncated(false), special(), sign(true) { }
 
 		/** \brief Parsed mantissa value. */
 		typename diy_fp<FloatType>::mantissa_storage_type value;
@@ -202,6 +206,10 @@ namespace floaxie
 		/** \brief Binary numerator of fractional part, to help correct rounding. */
 		unsigned char frac;
 
+		/** \brief Flag indicating there are non-zero digits not packed into
+		 * mantissa value. */
+		bool truncated;
+
 		/** \brief Flag of special value possibly occured. */
 		speciality special;
 
@@ -365,6 +373,7 @@ namespace floaxie
 		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
 			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
 
+		ret.truncated = frac_calculated;
 		ret.str_end = str + (pos - 1);
 		ret.K = pow_gain - fraction_digits_count;
 
@@ -381,6 +390,9 @@ namespace floaxie
 		/** \brief Calculated mantissa value. */
 		diy_fp<FloatType> value;
 
+		/** \brief Upper bound of absolute error of the mantissa value. */
+		typename diy_fp<FloatType>::mantissa_storage_type error;
+
 		/** \brief Corrected value of decimal exponent value. */
 		int K;
 
@@ -423,6 +435,7 @@ namespace floaxie
 		if (digits_parts.special == speciality::no)
 		{
 			ret.value = diy_fp<FloatType>(digits_parts.value, 0);
+			ret.error = digits_parts.truncated ? truncated_mantissa_error : 0;
 			ret.K = digits_parts.K;
 
 			if (digits_parts.value)
@@ -561,6 +574,7 @@ namespace floaxie
 				if (b1 && b2)
 				{
 					w *= cached_power<FloatType>(mp.K);
+					++mp.error; // multiplication and power itself are rounded
 				}
 				else
 				{
@@ -585,8 +599,11 @@ namespace floaxie
 				}
 			}
 
+			const auto exponent(w.exponent());
 			w.normalize();
-			const auto& v(w.downsample());
+			mp.error <<= exponent - w.exponent();
+
+			const auto& v(w.downsample(mp.error));
 			ret.value = v.value;
 			ret.str_end = ep.str_end;
 			ret.is_accurate = v.is_accurate;
-- 
2.43.0


From 7efae5e57ed1468202bb742e1b75ab10a3d0c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 05/11] fix: don't flush small values with long mantissa to
 zero in krosh()

---
 include/floaxie/krosh.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index d086407..8955f9d 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -593,7 +593,8 @@ namespace floaxie
 						ret.value = -ret.value;
 
 					ret.str_end = ep.str_end;
-					ret.is_accurate = true;
+					// the value might be not small enough to underflow for sure, as mantissa is up to 10 ^ decimal_q
+					ret.is_accurate = b1 || mp.K + int(decimal_q<FloatType>) <= std::numeric_limits<FloatType>::min_exponent10 - std::numeric_limits<FloatType>::max_digits10;
 
 					return ret;
 				}
-- 
2.43.0


From 75b9322e7a95ef3e9df1683ea70238f5b4c1ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 06/11] fix: parse exponent of arbitrary length and require its
 digits to be present

---
 include/floaxie/krosh.h | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 8955f9d..f36b6b1 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -49,8 +49,9 @@ namespace floaxie
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
-	/** \brief Maximum number of decimal digits in the exponent value. */
-	constexpr std::size_t exponent_decimal_digits(3);
+	/** \brief Limit of the exponent value, which is enough for any number of
+	 * \p `maximum_offset` length to be out of range. */
+	constexpr int exponent_limit(100000);
 
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
@@ -491,23 +492,28 @@ namespace floaxie
 	template<typename CharType> inline exponent_parse_result<CharType> parse_exponent(const CharType* str)
 	{
 		exponent_parse_result<CharType> ret;
-		if (*str != 'e' && *str != 'E')
-		{
-			ret.value = 0;
-			ret.str_end = str;
-		}
-		else
+		ret.value = 0;
+		ret.str_end = str;
+
+		if (*str == 'e' || *str == 'E')
 		{
 			++str;
 
-			const auto& digit_parts(parse_digits<float>(str));
+			const bool negative(*str == '-');
+			if (*str == '-' || *str == '+')
+				++str;
 
-			ret.value = digit_parts.value * seq_pow<int, 10, exponent_decimal_digits>(digit_parts.K);
+			// exponent part without digits is not a part of the value
+			while (*str >= '0' && *str <= '9')
+			{
+				if (ret.value < exponent_limit)
+					ret.value = ret.value * 10 + (*str - '0');
 
-			if (!digit_parts.sign)
-				ret.value = -ret.value;
+				ret.str_end = ++str;
+			}
 
-			ret.str_end = digit_parts.str_end;
+			if (negative)
+				ret.value = -ret.value;
 		}
 
 		return ret;
-- 
2.43.0


From de2d058a8e0c6c62b993f00a62d7edbe41f430bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 07/11] fix: don't consume anything, if there are no digits in
 the string

---
 include/floaxie/krosh.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index f36b6b1..da7db8f 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -247,6 +247,7 @@ namespace floaxie
 		std::vector<unsigned char> parsed_digits;
 		parsed_digits.reserve(kappa);
 
+		bool digit_set(false);
 		bool dot_set(false);
 		bool sign_set(false);
 		bool frac_calculated(false);
@@ -262,6 +263,7 @@ namespace floaxie
 			switch (c)
 			{
 			case '0':
+				digit_set = true;
 				if (!parsed_digits.empty() || dot_set)
 				{
 					++zero_substring_length;
@@ -278,6 +280,7 @@ namespace floaxie
 			case '7':
 			case '8':
 			case '9':
+				digit_set = true;
 				if (zero_substring_length && parsed_digits.size() < kappa)
 				{
 					const std::size_t spare_digits { kappa - parsed_digits.size() };
@@ -375,7 +378,8 @@ namespace floaxie
 			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
 
 		ret.truncated = frac_calculated;
-		ret.str_end = str + (pos - 1);
+		// neither digits nor special value found, so there's no value at all
+		ret.str_end = digit_set || ret.special != speciality::no ? str + (pos - 1) : str;
 		ret.K = pow_gain - fraction_digits_count;
 
 		return ret;
-- 
2.43.0


From 83decb6a257c31ef5aae8395bb34929c6b4e1976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 08/11] fix: consume exponent part of zero values

---
 include/floaxie/krosh.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index da7db8f..d5161d5 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -637,7 +637,12 @@ namespace floaxie
 				break;
 			}
 
-			ret.str_end = mp.str_end;
+			// exponent part of zero is a part of the value, too
+			if (mp.special == speciality::no && mp.str_end != str)
+				ret.str_end = parse_exponent(mp.str_end).str_end;
+			else
+				ret.str_end = mp.str_end;
+
 			ret.is_accurate = true;
 			ret.status = conversion_status::success;
 		}
-- 
2.43.0


From 8ec1b3dd48ce33ccb2b2a1e9aea0c1e15749da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 09/11] fix: detect status of fallback conversion by its own
 error only

---
 include/floaxie/atof.h             | 2 ++
 include/floaxie/default_fallback.h | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 4181536..fabf942 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -18,6 +18,7 @@
 #define FLOAXIE_ATOF_H
 
 #include <string>
+#include <cerrno>
 
 #include <floaxie/krosh.h>
 
@@ -112,6 +113,7 @@ namespace floaxie
 			}
 			else
 			{
+				errno = 0; // to not take a stale error for the error of this conversion
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index bd305ef..a889ec3 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -17,9 +17,11 @@
 #ifndef FLOAXIE_DEFAULT_FALLBACK_H
 #define FLOAXIE_DEFAULT_FALLBACK_H
 
+#include <cerrno>
 #include <cstdlib>
 #include <cwchar>
 
+#include <floaxie/huge_val.h>
 #include <floaxie/conversion_status.h>
 
 namespace floaxie
@@ -87,7 +89,11 @@ namespace floaxie
 		if (errno != ERANGE)
 			return conversion_status::success;
 
-		return returned_value ? conversion_status::overflow : conversion_status::underflow;
+		if (returned_value == huge_value<FloatType>() || returned_value == -huge_value<FloatType>())
+			return conversion_status::overflow;
+
+		// subnormal values might be also reported with ERANGE, but they are represented successfully
+		return returned_value ? conversion_status::success : conversion_status::underflow;
 	}
 }
 
-- 
2.43.0


From 6d58600f7bba65e273a2b353978d09eabbe3751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 10/11] fix: make string wrappers for char16_t and char32_t
 link

---
 include/floaxie/memwrap.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/memwrap.h b/include/floaxie/memwrap.h
index 65d0c66..bc0322b 100644
--- a/include/floaxie/memwrap.h
+++ b/include/floaxie/memwrap.h
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <cwchar>
+#include <string>
 
 namespace floaxie
 {
@@ -28,7 +29,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		*/
-		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count);
+		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count)
+		{
+			return std::char_traits<CharType>::assign(dest, count, ch);
+		}
 
 		template<> inline char* memset(char* dest, char ch, std::size_t count)
 		{
@@ -44,7 +48,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		 */
-		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count);
+		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count)
+		{
+			return std::char_traits<CharType>::move(dest, src, count);
+		}
 
 		template<> inline char* memmove(char* dest, const char* src, std::size_t count)
 		{
-- 
2.43.0


From 0b0911103adba36c4d66cf4fb3e565bde9674833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 11/11] fix: don't overflow on arbitrary wide characters behind
 the digits

---
 include/floaxie/krosh.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index d5161d5..a9e65df 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -156,9 +156,9 @@ namespace floaxie
 
 		for (std::size_t pos = 0; pos < kappa; ++pos)
 		{
-			const auto c = str[pos] - '0';
-			if (c >= 0 && c <= 9)
-				parsed_digits[pos] = c;
+			const CharType c = str[pos];
+			if (c >= '0' && c <= '9')
+				parsed_digits[pos] = c - '0';
 			else
 				break;
 		}
-- 
2.43.0

