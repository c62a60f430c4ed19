From 1ea97d228953352a01ab7fae3c442e137f4db71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 001/152] fix: String comparisons ignored everything after an
 embedded NUL

---
 library/Java/Lang/String/String.cpp | 4 ++--
 library/Java/Lang/String/String.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b6379f4..011b8ab 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -162,7 +162,7 @@ char String::charAt(int index) const {
 }
 
 int String::compareTo(const String &anotherString) const {
-	return strcmp(this->original.c_str(), anotherString.original.c_str());
+	return this->original.compare(anotherString.original);
 }
 
 int String::compareToIgnoreCase(const String &anotherString) const {
@@ -565,7 +565,7 @@ String String::subString(int beginIndex, int endIndex) const {
 }
 
 boolean String::contentEquals(const CharSequence &charSequence) const {
-	return strcmp(this->original.c_str(), charSequence.toString().toCharPointer()) == 0;
+	return this->original == charSequence.toString().original;
 }
 
 String String::copyValueOf(const Array<char> &charArray) {
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 2cae6e0..61dee63 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -1095,7 +1095,7 @@ namespace Java {
             * @return true if this String is smaller than target; false otherwise
             */
             inline boolean operator<(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) < 0;
+                return this->original < target.original;
             }
 
             /**
@@ -1105,7 +1105,7 @@ namespace Java {
              * @return true if this String is greater than target; false otherwise
              */
             inline boolean operator>(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) > 0;
+                return this->original > target.original;
             }
 
             /**
@@ -1115,7 +1115,7 @@ namespace Java {
             * @return true if this String is smaller than or equal to target; false otherwise
             */
             inline boolean operator<=(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) <= 0;
+                return this->original <= target.original;
             }
 
             /**
@@ -1125,7 +1125,7 @@ namespace Java {
              * @return true if this String is greater than or equal to target; false otherwise
              */
             inline boolean operator>=(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) >= 0;
+                return this->original >= target.original;
             }
 
             /**
-- 
2.43.0


From 56546b09fc30c947b3005ae7fc67276a3beea4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 002/152] fix: String::hashCode returned a stale cached value
 after += or operator[]

---
 library/Java/Lang/String/String.cpp | 9 +++------
 library/Java/Lang/String/String.hpp | 1 -
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 011b8ab..cdcb505 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -585,12 +585,9 @@ boolean String::equalsIgnoreCase(const String &anotherString) const {
 }
 
 long String::hashCode() const {
-	int hashCode = this->hash;
-	if (hashCode == 0 && this->original.size() > 0) {
-		for (int i = 0; i < this->original.size(); i++) {
-			hashCode = 31 * hashCode + this->original[i];
-		}
-		this->hash = hashCode;
+	int hashCode = 0;
+	for (int i = 0; i < this->original.size(); i++) {
+		hashCode = 31 * hashCode + this->original[i];
 	}
 	return hashCode;
 }
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 61dee63..69c8461 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -96,7 +96,6 @@ namespace Java {
 
         private:
             std::string original;
-            mutable int hash = 0;
 
         public:
             /**
-- 
2.43.0


From d8874fe51d814bc28a3ac9b6ff601d68f94fdcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 003/152] fix: String::charAt and getStringFromIndex accepted
 any index on an empty string

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index cdcb505..2455e11 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -155,7 +155,7 @@ String String::clone() {
 }
 
 char String::charAt(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= this->length()) {
 		throw StringIndexOutOfBoundsException("String index out of range");
 	}
 	return (this->original[index]);
@@ -201,7 +201,7 @@ Array<byte> String::getBytes() const {
 }
 
 String String::getStringFromIndex(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= this->length()) {
 		throw StringIndexOutOfBoundsException(index);
 	}
 	return this->original.substr(index);
-- 
2.43.0


From 96f2ddec7f2ac674e56684adb901984bbbfa21c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 004/152] fix: String::lastIndexOf(char, fromIndex) skipped a
 match at fromIndex

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 2455e11..80bb511 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -309,12 +309,12 @@ int String::lastIndexOf(int character, int fromIndex) const {
 	if (fromIndex < 0) {
 		return -1;
 	}
-	if (fromIndex > this->original.size() - 1) {
+	if (fromIndex >= this->length()) {
 		return this->lastIndexOf(character);
 	}
 
 	int index = 0;
-	for (index = fromIndex - 1; index >= 0; index--) {
+	for (index = fromIndex; index >= 0; index--) {
 		if (this->charAt(index) == (char) character) {
 			return index;
 		}
-- 
2.43.0


From ecfc4c7d6fa05486598ee83d58d924b4854ca323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 005/152] fix: String searches ignored everything after an
 embedded NUL in the pattern

---
 library/Java/Lang/String/String.cpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 80bb511..30812b9 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -174,7 +174,7 @@ String String::concat(const String &target) const {
 }
 
 boolean String::contains(const CharSequence &charSequence) const {
-	std::size_t found = this->original.find(charSequence.toString().toCharPointer());
+	std::size_t found = this->original.find(charSequence.toString().original);
 	if (found != std::string::npos) {
 		return true;
 	} else {
@@ -227,18 +227,7 @@ String String::fromCharArray(const Array<char> &charArray) {
 }
 
 int String::indexOf(int character) const {
-	string pointerHolder;
-	char target = (char) character;
-	if (target == '\0') {
-		pointerHolder = strdup("");
-	} else {
-		auto *result = (string) calloc(2, sizeof(char));
-		result[0] = target;
-		result[1] = '\0';
-		pointerHolder = result;
-	}
-	std::size_t found = this->original.find(pointerHolder);
-	free(pointerHolder);
+	std::size_t found = this->original.find((char) character);
 	if (found != std::string::npos) {
 		return (int) found;
 	}
@@ -349,7 +338,7 @@ int String::lastIndexOf(const String &subString, int fromIndex) const {
 		return -1;
 	}
 	std::string subStringFromIndex = thisStringReversed.substr(indexToCreatSubString);
-	std::string reversedString = subString.toCharPointer();
+	std::string reversedString = subString.original;
 	std::reverse(reversedString.begin(), reversedString.end());
 	auto result = (int) subStringFromIndex.find(reversedString);
 	if (result == -1) {
-- 
2.43.0


From b453f270b142968e10a7c4123d4cca62bae89459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 006/152] fix: String::replaceFirst threw or cut the string
 when the match was missing or last

---
 library/Java/Lang/String/String.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 30812b9..be068ad 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -652,11 +652,11 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 
 String String::replaceFirst(const String &regex, const String &replacement) const {
 	// TODO (anhnt) fix this later, temporary, need Pattern
-	int stringWithFirstRegexLength = this->indexOf(regex) + regex.length();
-	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
-	String remainString = this->getStringFromIndex(stringWithFirstRegexLength);
-	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
-	return stringWithFirstRegex + remainString;
+	int index = this->indexOf(regex);
+	if (index < 0) {
+		return *this;
+	}
+	return this->subString(0, index) + replacement + this->subString(index + regex.length());
 }
 
 Array<String> String::split(const String &regex, int limit) const {
-- 
2.43.0


From 5ae62a2987ebbe23c06b418b6ceb4556db4ff581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 007/152] fix: String::trim removed only spaces instead of
 every character up to U+0020

---
 library/Java/Lang/String/String.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index be068ad..74b0e07 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -458,12 +458,15 @@ String String::toUpperCase() const {
 }
 
 String String::trim() const {
-	size_t first = this->original.find_first_not_of(' ');
-	if (std::string::npos == first) {
-		return "";
+	int first = 0;
+	int last = this->length();
+	while (first < last && (byte) this->original[first] <= ' ') {
+		first++;
+	}
+	while (last > first && (byte) this->original[last - 1] <= ' ') {
+		last--;
 	}
-	size_t last = this->original.find_last_not_of(' ');
-	return this->original.substr(first, (last - first + 1));
+	return this->original.substr(first, last - first);
 }
 
 String String::valueOf(boolean target) {
-- 
2.43.0


From 7ea688220b5094264c03cbfb1d84c0e484c1de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 008/152] fix: String::split never returned for an empty
 separator

---
 library/Java/Lang/String/String.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 74b0e07..b575890 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -375,8 +375,15 @@ Array<String> String::split(const String &regex) const {
 	size_t pre = 0;
 	std::string targetString = regex.original;
 	std::string result;
-	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 
+	if (targetString.empty() && !this->original.empty()) {
+		for (char character : this->original) {
+			strings.push(std::string(1, character));
+		}
+		return strings;
+	}
+
+	while (!targetString.empty() && (pos = this->original.find(targetString, pos)) != std::string::npos) {
 		for (; pre < pos; pre++) {
 			result += this->original[pre];
 		}
-- 
2.43.0


From ae9f6494cc12db64538c1fcad4d3d2ff49f4b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 009/152] fix: String::replace never returned for an empty
 target

---
 library/Java/Lang/String/String.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b575890..e590ad0 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -646,10 +646,20 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 	std::string targetString = target.toString().original;
 	std::string replaceString = replacement.toString().original;
 	std::string result;
+	if (targetString.empty()) {
+		result = replaceString;
+		for (char character : this->original) {
+			result += character;
+			result += replaceString;
+		}
+		return result;
+	}
+
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 		for (; pre < pos; pre++) {
 			result += this->original[pre];
 		}
+
 		result += replaceString;
 		pre += targetString.size();
 		pos += targetString.length();
-- 
2.43.0


From 8874b03cbf3d6af7ab7aea1ea13a9cdf852c9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 010/152] fix: String::toUpperCase and toLowerCase dropped
 everything after an embedded NUL

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index e590ad0..6b467e3 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -36,7 +36,7 @@ std::wstring multiByteStringToWideString(const std::string &input) {
     setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
-        return convertToWstring.from_bytes(input.c_str());
+        return convertToWstring.from_bytes(input);
     } catch (std::exception &exception) {
         std::wstring emptyString;
         return emptyString;
@@ -47,7 +47,7 @@ std::string wideStringToMultiByteString(const std::wstring &input) {
     setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
-        return convertToString.to_bytes(input.c_str());
+        return convertToString.to_bytes(input);
     } catch (std::exception &exception) {
         std::string emptyString;
         return emptyString;
-- 
2.43.0


From 8a93f3ac736ae228225b1df8b9bb48ea026926c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 011/152] fix: String::valueOf(const_string) crashed on a null
 pointer

---
 library/Java/Lang/String/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 6b467e3..29d476a 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -902,7 +902,7 @@ String String::format(const String &format) {
 }
 
 String String::valueOf(const_string constStringValue) {
-	if (std::string(constStringValue).empty()) {
+	if (constStringValue == nullptr) {
 		return (string) "";
 	}
 	return constStringValue;
-- 
2.43.0


From b37d5122b1f64779833e3ff03fbfeb20e1be3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 012/152] fix: String::format read past its buffer for
 conversions of 128 characters or more

---
 library/Java/Lang/String/String.cpp | 36 +++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 29d476a..299ecae 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -712,10 +712,22 @@ String String::print(const String &format, bool value) {
 	return "";
 }
 
+// Used when a conversion does not fit in DEFAULT_BUFFER_LENGTH
+template<typename T>
+static String printLong(const String &format, T value, int length) {
+	std::string buffer((size_t) length + 1, '\0');
+	snprintf(&buffer[0], buffer.size(), format.toCharPointer(), value);
+	buffer.resize((size_t) length);
+	return buffer;
+}
+
 String String::print(const String &format, short value) {
 	String result;
 	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
 	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length >= DEFAULT_BUFFER_LENGTH) {
+		return printLong(format, value, length);
+	}
 	if (length > 0) {
 		result = String(buffer, length);
 	}
@@ -726,6 +738,9 @@ String String::print(const String &format, int value) {
 	String result;
 	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
 	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length >= DEFAULT_BUFFER_LENGTH) {
+		return printLong(format, value, length);
+	}
 	if (length > 0) {
 		result = String(buffer, length);
 	}
@@ -736,6 +751,9 @@ String String::print(const String &format, long value) {
 	String result;
 	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
 	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length >= DEFAULT_BUFFER_LENGTH) {
+		return printLong(format, value, length);
+	}
 	if (length > 0) {
 		result = String(buffer, length);
 	}
@@ -746,6 +764,9 @@ String String::print(const String &format, long long value) {
     String result;
     char buffer[DEFAULT_BUFFER_LENGTH] = {0};
     const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+    if (length >= DEFAULT_BUFFER_LENGTH) {
+        return printLong(format, value, length);
+    }
     if (length > 0) {
         result = String(buffer, length);
     }
@@ -756,6 +777,9 @@ String String::print(const String &format, unsigned short value) {
 	String result;
 	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
 	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length >= DEFAULT_BUFFER_LENGTH) {
+		return printLong(format, value, length);
+	}
 	if (length > 0) {
 		result = String(buffer, length);
 	}
@@ -766,6 +790,9 @@ String String::print(const String &format, unsigned int value) {
 	String result;
 	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
 	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length >= DEFAULT_BUFFER_LENGTH) {
+		return printLong(format, value, length);
+	}
 	if (length > 0) {
 		result = String(buffer, length);
 	}
@@ -776,6 +803,9 @@ String String::print(const String &format, unsigned long value) {
 	String result;
 	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
 	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length >= DEFAULT_BUFFER_LENGTH) {
+		return printLong(format, value, length);
+	}
 	if (length > 0) {
 		result = String(buffer, length);
 	}
@@ -786,6 +816,9 @@ String String::print(const String &format, double value) {
 	String result;
 	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
 	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length >= DEFAULT_BUFFER_LENGTH) {
+		return printLong(format, value, length);
+	}
 	if (length > 0) {
 		result = String(buffer, length);
 	}
@@ -796,6 +829,9 @@ String String::print(const String &format, float value) {
 	String result;
 	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
 	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length >= DEFAULT_BUFFER_LENGTH) {
+		return printLong(format, value, length);
+	}
 	if (length > 0) {
 		result = String(buffer, length);
 	}
-- 
2.43.0


From 75eb9663b97c31caf278545e613c4631425b2c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 013/152] fix: String::format cut the last character of a
 128-character string argument

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 299ecae..be4ab59 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -842,7 +842,7 @@ String String::print(const String &format, string value) {
 	String result;
 	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
 	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
+	if (length >= DEFAULT_BUFFER_LENGTH) {
 		free(buffer);
 		buffer = (string) calloc(++length, sizeof(char));
 		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
@@ -858,7 +858,7 @@ String String::print(const String &format, const_string value) {
 	String result;
 	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
 	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
+	if (length >= DEFAULT_BUFFER_LENGTH) {
 		free(buffer);
 		buffer = (string) calloc(++length, sizeof(char));
 		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-- 
2.43.0


From 28e6a991d294256fdb8b0c62bcc356da750037a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 014/152] fix: StringBuilder::indexOf missed matches (failure
 table built from the text, wrong shift)

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 3f793ab..d46625b 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -735,7 +735,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 	}
 	
 	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(target);
+		int *nextTable = this->initializeNextTable(pattern);
 	if (nextTable == nullptr) {
 		return -1;
 	}
@@ -750,7 +750,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 			position = position + 1;
 		} else {
 			if (nextTable[ position ] > -1) {
-				startIndex = startIndex + position;
+				startIndex = startIndex + position - nextTable[ position ];
 				position = nextTable[ position ];
 			} else {
 				startIndex = startIndex + 1;
-- 
2.43.0


From 67c15df4b5dbda36f25ea0687002007efbe2d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 015/152] fix: StringBuilder::lastIndexOf missed matches and
 read outside the buffer

---
 .../Java/Lang/StringBuilder/StringBuilder.cpp | 40 +++++--------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index d46625b..422a26c 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -771,42 +771,22 @@ int StringBuilder::stringMatchesReverse(const String target, const String patter
 		return -1;
 	}
 	
-	int rightIndex = lengthOfTarget - lengthOfPattern;
-	if (startIndex < rightIndex) {
-		startIndex = rightIndex;
-	}
-	
 	// Empty string always matches.
 	if (lengthOfPattern == 0) {
-		return startIndex;
-	}
-	
-	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(pattern);
-	if (nextTable == nullptr) {
-		return -1;
+		return startIndex < lengthOfTarget ? startIndex : lengthOfTarget;
 	}
-	
-	int position = 0;
-	while (startIndex - position >= 0) {
-		if (pattern[ lengthOfPattern - position - 1 ] == target[ startIndex - position ]) {
-			if (position == lengthOfPattern - 1) {
-				free(nextTable);
-				return startIndex - lengthOfPattern + 1;
-			}
+
+	// The match has to lie within [0, startIndex].
+	int index = (startIndex < lengthOfTarget ? startIndex + 1 : lengthOfTarget) - lengthOfPattern;
+	for (; index >= 0; index--) {
+		int position = 0;
+		while (position < lengthOfPattern && pattern[ position ] == target[ index + position ]) {
 			position = position + 1;
-		} else {
-			if (nextTable[ position ] > -1) {
-				startIndex = startIndex - position;
-				position = nextTable[ position ];
-			} else {
-				startIndex = startIndex - 1;
-				position = 0;
-			}
+		}
+		if (position == lengthOfPattern) {
+			return index;
 		}
 	}
-	
-	free(nextTable);
 	return -1;
 }
 
-- 
2.43.0


From f2dcf4738b7256bec9e175d5bffa7eb0800f89ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 016/152] fix: StringBuilder::insert(index, array, offset,
 length) accepted an overflowing range

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 422a26c..a08ab5a 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -381,7 +381,7 @@ StringBuilder &StringBuilder::insert(int index, const Array<char> &target, int o
 	}
 	
 	int stopIndexOfTarget = offset + length;
-	if (offset < 0 || length < 0 || stopIndexOfTarget > target.length) {
+	if (offset < 0 || length < 0 || offset > target.length - length) {
 		throw StringIndexOutOfBoundsException(offset);
 	}
 	
@@ -409,7 +409,7 @@ StringBuilder &StringBuilder::insert(int index, const Array<Character> &target,
 	}
 	
 	int stopIndexOfTarget = offset + length;
-	if (offset < 0 || length < 0 || stopIndexOfTarget > target.length) {
+	if (offset < 0 || length < 0 || offset > target.length - length) {
 		throw StringIndexOutOfBoundsException(offset);
 	}
 	
-- 
2.43.0


From 38d7a2f497af51cb115565226156f576a6216166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 017/152] fix: assigning a StringBuilder shared its buffer and
 freed it twice

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 12 ++++++++++++
 library/Java/Lang/StringBuilder/StringBuilder.hpp |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index a08ab5a..3b4d776 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -77,6 +77,18 @@ StringBuilder::~StringBuilder() {
 	free(original);
 }
 
+StringBuilder &StringBuilder::operator=(const StringBuilder &target) {
+	if (this != &target) {
+		this->setLength(0);
+		this->ensureCapacity(target.currentLength);
+		if (target.currentLength > 0) {
+			memcpy(this->original, target.original, (size_t) target.currentLength);
+		}
+		this->currentLength = target.currentLength;
+	}
+	return *this;
+}
+
 StringBuilder &StringBuilder::append(Boolean target) {
 	return this->append(target.toString());
 }
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 3c6185d..69aa8fa 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -102,6 +102,8 @@ namespace Java {
 						 * StringBuilder Destructor
 						 */
                         virtual ~StringBuilder();
+
+                        StringBuilder &operator=(const StringBuilder &target);
                 
                 public:
                         /**
-- 
2.43.0


From 9baaca5f5f8f21b2f806310e4a27eef5c6742515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 018/152] fix: StringBuilder edits returned a copy, so chained
 calls were lost

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 8 ++++----
 library/Java/Lang/StringBuilder/StringBuilder.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 3b4d776..51912d9 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -276,7 +276,7 @@ int StringBuilder::codePointCount(int beginIndex, int endIndex) {
 	return result;
 }
 
-StringBuilder StringBuilder::deleteRange(int start, int end) {
+StringBuilder &StringBuilder::deleteRange(int start, int end) {
 	if (start < 0) {
 		throw StringIndexOutOfBoundsException(start);
 	}
@@ -297,7 +297,7 @@ StringBuilder StringBuilder::deleteRange(int start, int end) {
 	return *this;
 }
 
-StringBuilder StringBuilder::deleteCharAt(int index) {
+StringBuilder &StringBuilder::deleteCharAt(int index) {
 	if (index < 0 || index >= this->currentLength) {
 		throw StringIndexOutOfBoundsException(index);
 	}
@@ -555,7 +555,7 @@ int StringBuilder::length() const {
 //	throw UnsupportedOperationException();
 //}
 
-StringBuilder StringBuilder::replace(int start, int end, const String target) {
+StringBuilder &StringBuilder::replace(int start, int end, const String target) {
 	if (start < 0) {
 		throw StringIndexOutOfBoundsException(start);
 	}
@@ -587,7 +587,7 @@ StringBuilder StringBuilder::replace(int start, int end, const String target) {
 	return *this;
 }
 
-StringBuilder StringBuilder::reverse() {
+StringBuilder &StringBuilder::reverse() {
 	boolean hasSurrogates = false;
 	int index;
 	int oppositeIndex;
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 69aa8fa..c862bc8 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -388,7 +388,7 @@ namespace Java {
 						 * @return StringBuilder
 						 * @throw StringIndexOutOfBoundsException - if start is negative, greater than length(), or greater than end.
 						 */
-                        StringBuilder deleteRange(int start, int end);
+                        StringBuilder &deleteRange(int start, int end);
                         
                         /**
 						 * Removes the char at the specified position in this sequence.
@@ -398,7 +398,7 @@ namespace Java {
 						 * @return StringBuilder
 						 * @throw StringIndexOutOfBoundsException - if the index is negative or greater than or equal to length().
 						 */
-                        StringBuilder deleteCharAt(int index);
+                        StringBuilder &deleteCharAt(int index);
                         
                         /**
 						 * Ensures that the capacity is at least equal to the specified minimum.
@@ -720,7 +720,7 @@ namespace Java {
 						 * @param target
 						 * @return StringBuilder
 						 */
-                        StringBuilder replace(int start, int end, const String target);
+                        StringBuilder &replace(int start, int end, const String target);
                         
                         /**
 						 * Causes this character sequence to be replaced by the reverse of the sequence.
@@ -728,7 +728,7 @@ namespace Java {
 						 *
 						 * @return StringBuilder
 						 */
-                        StringBuilder reverse();
+                        StringBuilder &reverse();
                         
                         /**
 						 * The character at the specified index is set to target.
-- 
2.43.0


From 5db3d3a3063eabccbd5cc4f8327cc2a3da3c1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 019/152] fix: StringBuffer deletes, deleteCharAt and replace
 moved the wrong number of bytes

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index db6cdf7..3f67333 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -316,18 +316,12 @@ StringBufferUnSafe &StringBufferUnSafe::deletes(int start, int end) {
         return *this;
     }
 
-    string fromPosition;
-    int memorySizeToMove;
-
     if (end > this->currentLength) {
-        fromPosition = this->original + this->currentLength;
-        memorySizeToMove = this->currentLength * sizeof(char);
-        this->currentLength = start;
-    } else {
-        fromPosition = this->original + end;
-        memorySizeToMove = (this->currentLength - start) * sizeof(char);
-        this->currentLength -= (end - start);
+        end = this->currentLength;
     }
+    string fromPosition = this->original + end;
+    int memorySizeToMove = (this->currentLength - end) * sizeof(char);
+    this->currentLength -= (end - start);
 
     string toPosition = this->original + start;
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
@@ -346,7 +340,8 @@ StringBufferUnSafe &StringBufferUnSafe::deleteCharAt(int index) {
     // move block of memory from index + 1 to index
     string fromPosition = this->original + index + 1;
     string toPosition = this->original + index;
-    int memorySizeToMove = (this->currentLength - index) * sizeof(char);
+    int memorySizeToMove = (this->currentLength - index - 1) * sizeof(char);
+
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
     this->currentLength--;
     return *this;
@@ -514,17 +509,17 @@ StringBufferUnSafe &StringBufferUnSafe::replace(int start, int end, const String
 
     int newLength =
             this->currentLength + stringToReplace.length() - end + start;
-    this->ensureCapacity(newLength);
-    this->currentLength = newLength;
+        this->ensureCapacity(newLength);
 
-    string fromPosition = this->original + end;
-    string toPosition = this->original + start + stringToReplace.length();
-    int memorySizeToMove = stringToReplace.length() * sizeof(char);
-    memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
+        string fromPosition = this->original + end;
+        string toPosition = this->original + start + stringToReplace.length();
+        int memorySizeToMove = (this->currentLength - end) * sizeof(char);
+        memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
 
-    string insertPosition = this->original + start;
-    memcpy(insertPosition, stringToReplace.toCharPointer(),
-           (size_t) memorySizeToMove);
+        string insertPosition = this->original + start;
+        memcpy(insertPosition, stringToReplace.toCharPointer(),
+               (size_t) stringToReplace.length());
+        this->currentLength = newLength;
 
     return *this;
 }
-- 
2.43.0


From 8c8a4e79f5b10043831d57090a36bebf25f2bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 020/152] fix: StringBuffer content was read as a C string
 without being NUL-terminated

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 3f67333..d8616ba 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -39,13 +39,13 @@ StringBufferUnSafe::StringBufferUnSafe(int capacity) {
     }
 
     this->currentCapacity = capacity;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const String &originalString) {
     this->currentCapacity = originalString.length() + DEFAULT_CAPACITY;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(originalString);
 }
@@ -57,7 +57,7 @@ StringBufferUnSafe::StringBufferUnSafe(const CharSequence &sequence) {
         this->currentCapacity = sequence.length() + DEFAULT_CAPACITY;
     }
 
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(sequence);
 }
@@ -103,7 +103,7 @@ void StringBufferUnSafe::ensureCapacity(int minimumCapacity) {
         this->currentCapacity = newCapacity;
     } while (newCapacity < minimumCapacity);
 
-    int newSize = newCapacity * sizeof(char);
+    int newSize = (newCapacity + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
 }
 
@@ -127,6 +127,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
     int memorySizeToMove = len * sizeof(char);
     memmove(appendPosition, startIndex, (size_t) memorySizeToMove);
     this->currentLength += len;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -147,11 +148,12 @@ StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
     int memorySizeToInsert = len * sizeof(char);
     memmove(insertPosition, startIndex, (size_t) memorySizeToInsert);
     this->currentLength += len;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const StringBufferUnSafe &other) {
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -325,6 +327,7 @@ StringBufferUnSafe &StringBufferUnSafe::deletes(int start, int end) {
 
     string toPosition = this->original + start;
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -344,6 +347,7 @@ StringBufferUnSafe &StringBufferUnSafe::deleteCharAt(int index) {
 
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
     this->currentLength--;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -520,6 +524,7 @@ StringBufferUnSafe &StringBufferUnSafe::replace(int start, int end, const String
         memcpy(insertPosition, stringToReplace.toCharPointer(),
                (size_t) stringToReplace.length());
         this->currentLength = newLength;
+    this->original[this->currentLength] = '\0';
 
     return *this;
 }
@@ -636,7 +641,7 @@ void StringBufferUnSafe::trimToSize() {
     if (this->currentCapacity <= this->currentLength) {
         return;
     }
-    int newSize = this->currentLength * sizeof(char);
+    int newSize = (this->currentLength + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
     this->currentCapacity = this->currentLength;
 }
@@ -644,7 +649,7 @@ void StringBufferUnSafe::trimToSize() {
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -674,7 +679,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 StringBuffer::StringBuffer(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -968,7 +973,7 @@ void StringBuffer::trimToSize() {
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
-- 
2.43.0


From a356fcffed315025e8897bd08003ed89434b774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 021/152] fix: StringBuffer append/insert(String, offset,
 length) accepted an overflowing range

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index d8616ba..a8ae8a5 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -117,7 +117,7 @@ int StringBufferUnSafe::length() const {
 
 StringBufferUnSafe &
 StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
-    if (offset < 0 || len < 0 || (offset + len) > stringToAppend.length()) {
+    if (offset < 0 || len < 0 || offset > stringToAppend.length() - len) {
         throw IndexOutOfBoundsException();
     }
 
@@ -135,7 +135,7 @@ StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
     if (index < 0 || index > length() || offset < 0
-        || len < 0 || (offset + len) > stringToInsert.length()) {
+        || len < 0 || offset > stringToInsert.length() - len) {
         throw StringIndexOutOfBoundsException();
     }
 
-- 
2.43.0


From 6fa0e2c3c4b5784faacf9121a7c39c9c02cc5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 022/152] fix: StringBuffer::lastIndexOf(String, fromIndex)
 missed matches and threw near the end

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp    | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index a8ae8a5..ac46ced 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -474,19 +474,15 @@ int StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex) const {
 
 int
 StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex, int fromIndex) const {
-    String reversedString = StringBuilder(stringToGetIndex).reverse();
-    String reversedOriginalString = StringBuilder(this->original).reverse();
-
-    int substringIndex = this->length() - fromIndex - stringToGetIndex.length();
-    reversedOriginalString = reversedOriginalString.getStringFromIndex(substringIndex);
-    int result = reversedOriginalString.indexOf(reversedString);
+    if (fromIndex < 0) {
+        return -1;
+    }
+    std::size_t result = std::string(this->original).rfind(stringToGetIndex.toCharPointer(), (size_t) fromIndex);
 
-    // Calculate result with original
-    if (result == -1) {
-        return result;
+    if (result == std::string::npos) {
+        return -1;
     }
-    result = reversedOriginalString.length() - stringToGetIndex.length() - result;
-    return result;
+    return (int) result;
 }
 
 int
-- 
2.43.0


From 7e153d3c41fce90b2e8ff6334283ea5a6b8c4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 023/152] fix: StringBuffer::subString rejected start ==
 length() instead of giving an empty string

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index ac46ced..f7f9abd 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -614,7 +614,7 @@ String StringBufferUnSafe::subString(int start, int end) const {
         throw StringIndexOutOfBoundsException("start and end must be positive");
     }
 
-    if (start >= this->currentLength || end > this->currentLength ||
+    if (start > this->currentLength || end > this->currentLength ||
         start > end) {
         throw StringIndexOutOfBoundsException();
     }
-- 
2.43.0


From 4eef4d7260514d945447576557e81928da345b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 024/152] fix: StringBuffer::length, ensureCapacity and
 getValue did not take the lock

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index f7f9abd..2035e10 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -93,13 +93,13 @@ void StringBufferUnSafe::ensureCapacity(int minimumCapacity) {
         return;
     }
 
-    if (minimumCapacity <= capacity()) {
+    if (minimumCapacity <= this->currentCapacity) {
         return;
     }
 
     int newCapacity = 0;
     do {
-        newCapacity = capacity() * 2 + 2;
+        newCapacity = this->currentCapacity * 2 + 2;
         this->currentCapacity = newCapacity;
     } while (newCapacity < minimumCapacity);
 
@@ -121,7 +121,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
         throw IndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string appendPosition = this->original + this->currentLength;
     string startIndex = stringToAppend.toCharPointer() + offset;
     int memorySizeToMove = len * sizeof(char);
@@ -134,12 +134,12 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
 StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
-    if (index < 0 || index > length() || offset < 0
+    if (index < 0 || index > this->currentLength || offset < 0
         || len < 0 || offset > stringToInsert.length() - len) {
         throw StringIndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string insertPosition = this->original + index;
     string newTailStart = this->original + index + len;
     int memorySizeToMove = (this->currentLength - index) * sizeof(char);
@@ -795,10 +795,12 @@ StringBuffer &StringBuffer::deletes(int start, int end) {
 }
 
 void StringBuffer::ensureCapacity(int minimumCapacity) {
+    std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::ensureCapacity(minimumCapacity);
 }
 
 String StringBuffer::getValue() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::getValue();
 }
 
@@ -815,6 +817,7 @@ StringBuffer &StringBuffer::deleteCharAt(int index) {
 }
 
 int StringBuffer::length() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::length();
 }
 
-- 
2.43.0


From 4180b553234b36f6a4a9c115c976e5d462e85df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 025/152] fix: StringBuffer raced or deadlocked when its
 argument was another (or the same) StringBuffer

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 44 ++++++++++++-------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 2035e10..3aa2c23 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -644,6 +644,9 @@ void StringBufferUnSafe::trimToSize() {
 
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
+    if (this == &other) {
+        return *this;
+    }
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -673,7 +676,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 }
 
 StringBuffer::StringBuffer(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    std::lock_guard<std::mutex> guard(other.mutex);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -710,8 +713,10 @@ StringBuffer &StringBuffer::append(boolean boolValue) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence) {
+    // The sequence may be a StringBuffer, even this one: read it before locking
+    String text = (&sequence == nullptr) ? String("null") : sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(sequence);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -746,8 +751,12 @@ StringBuffer &StringBuffer::append(string stringToAppend, int offset, int len) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence, int start, int end) {
+    if (&sequence == nullptr) {
+        return this->append(sequence);
+    }
+    String text = sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(sequence, start, end);
+    StringBufferUnSafe::append((const CharSequence &) text, start, end);
     return *this;
 }
 
@@ -758,8 +767,9 @@ StringBuffer &StringBuffer::appendCodePoint(int codePoint) {
 }
 
 StringBuffer &StringBuffer::append(const StringBuffer &stringBuffer) {
+    String text = stringBuffer.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(stringBuffer);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -877,8 +887,12 @@ StringBuffer &StringBuffer::insert(int offset, double doubleValue) {
 StringBuffer &
 StringBuffer::insert(int destinationOffset, const CharSequence &sequence, int start,
                      int end) {
+    if (&sequence == nullptr) {
+        return this->insert(destinationOffset, String("null"));
+    }
+    String text = sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(destinationOffset, sequence, start, end);
+    StringBufferUnSafe::insert(destinationOffset, (const CharSequence &) text, start, end);
     return *this;
 }
 
@@ -895,8 +909,9 @@ StringBuffer &StringBuffer::insert(int offset, int intValue) {
 }
 
 StringBuffer &StringBuffer::insert(int offset, const CharSequence &charSequence) {
+    String text = (&charSequence == nullptr) ? String("null") : charSequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(offset, &charSequence);
+    StringBufferUnSafe::insert(offset, text);
     return *this;
 }
 
@@ -970,15 +985,14 @@ void StringBuffer::trimToSize() {
 }
 
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
-    free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity + 1,
-                                     sizeof(char));
-    int index;
-    for (index = 0; index < other.currentLength; index++) {
-        this->original[index] = other.original[index];
+    if (this == &other) {
+        return *this;
     }
-    this->currentLength = other.currentLength;
-    this->currentCapacity = other.currentCapacity;
+    // Never hold both locks: two buffers may be assigned to each other
+    StringBuffer copy(other);
+    std::lock_guard<std::mutex> guard(this->mutex);
+    std::swap(this->original, copy.original);
+    std::swap(this->currentLength, copy.currentLength);
+    std::swap(this->currentCapacity, copy.currentCapacity);
     return *this;
 }
\ No newline at end of file
-- 
2.43.0


From 4be8b986c9b35267b1925cb92f4ec849c9768488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 026/152] fix: Integer::parseInt, parseUnsignedInt and decode
 accepted junk around the digits

---
 library/Java/Lang/Integer/Integer.cpp | 36 +++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 7d0f482..79166b5 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -34,6 +34,25 @@
 
 using namespace Java::Lang;
 
+// std::stoul alone skips blanks, takes a second sign or a radix prefix, and stops at the first junk character
+static void checkDigits(const String &inputString, int radix) {
+    int index;
+    for (index = 0; index < inputString.length(); index++) {
+        char digit = inputString.charAt(index);
+        int value = radix;
+        if (digit >= '0' && digit <= '9') {
+            value = digit - '0';
+        } else if (digit >= 'a' && digit <= 'z') {
+            value = digit - 'a' + 10;
+        } else if (digit >= 'A' && digit <= 'Z') {
+            value = digit - 'A' + 10;
+        }
+        if (value >= radix) {
+            throw NumberFormatException("Not a number");
+        }
+    }
+}
+
 Integer::Integer() {
 	this->original = 0;
 	asprintf(&this->originalString, "%d", this->original);
@@ -249,9 +268,10 @@ Integer Integer::decode(String inputString) {
 		inputString = inputString.getStringFromIndex(1);
 	}
 	
-	if (inputString.charAt(0) == '0') {
+	if (inputString.length() > 1 && inputString.charAt(0) == '0') {
 		if (inputString.charAt(1) == 'x' || inputString.charAt(1) == 'X') {
 			base = 16;
+			inputString = inputString.subString(2, inputString.length());
 		} else {
 			base = 8;
 		}
@@ -367,11 +387,14 @@ int Integer::parseInt(String inputString, int radix) {
 	
 	boolean isNegative = false;
 	char sign = inputString.charAt(0);
-	if (sign == '-' && (( isdigit(sign)) == 0 )) {
-		isNegative = true;
+	if (sign == '-' || sign == '+') {
+		if (inputString.length() == 1) {
+			throw NumberFormatException("Not a number");
+		}
+		isNegative = (sign == '-');
 		inputString = inputString.getStringFromIndex(1);
 	}
-	
+	checkDigits(inputString, radix);
 	unsigned long unsignedResult = 0;
 	try {
 		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
@@ -422,10 +445,13 @@ int Integer::parseUnsignedInt(String inputString, int radix) {
 		}
 		
 		if (sign == '+') {
+			if (inputString.length() == 1) {
+				throw NumberFormatException("Not a number");
+			}
 			inputString = inputString.getStringFromIndex(1);
 		}
 	}
-	
+	checkDigits(inputString, radix);
 	unsigned long unsignedResult = 0;
 	
 	try {
-- 
2.43.0


From b5b8961393e8d06b3d5f9e99f3b536582428d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 027/152] fix: Integer::parseInt wrapped values of 2^63 and
 more into range

---
 library/Java/Lang/Integer/Integer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 79166b5..955f91b 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -406,8 +406,10 @@ int Integer::parseInt(String inputString, int radix) {
 		throw NumberFormatException("Integer out of range");
 	}
 	
+	if (unsignedResult > UNSIGNED_INT_MAX) {
+		throw NumberFormatException("Integer out of range");
+	}
 	long result = unsignedResult;
-	
 	if (isNegative) {
 		result = -unsignedResult;
 	}
-- 
2.43.0


From e791ec3e5c0b241a65d2f721aab2515b64c8cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 028/152] fix: Integer::decode rejected '+', '#' and MIN_VALUE
 and read past a lone sign

---
 library/Java/Lang/Integer/Integer.cpp | 36 +++++++++++++++------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 955f91b..c9d9d54 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -262,26 +262,30 @@ Integer Integer::decode(String inputString) {
 	
 	boolean isNegative = false;
 	int base = 10;
+	int index = 0;
 	char sign = inputString.charAt(0);
-	if (sign == '-' && (( isdigit(sign)) == 0 )) {
-		isNegative = true;
-		inputString = inputString.getStringFromIndex(1);
-	}
-	
-	if (inputString.length() > 1 && inputString.charAt(0) == '0') {
-		if (inputString.charAt(1) == 'x' || inputString.charAt(1) == 'X') {
-			base = 16;
-			inputString = inputString.subString(2, inputString.length());
-		} else {
-			base = 8;
-		}
+	if (sign == '-' || sign == '+') {
+		isNegative = (sign == '-');
+		index++;
+	}
+	if (inputString.startsWith("0x", index) || inputString.startsWith("0X", index)) {
+		base = 16;
+		index += 2;
+	} else if (inputString.startsWith("#", index)) {
+		base = 16;
+		index++;
+	} else if (inputString.startsWith("0", index) && inputString.length() > index + 1) {
+		base = 8;
+		index++;
+	}
+	if (index == inputString.length() || inputString.startsWith("-", index) || inputString.startsWith("+", index)) {
+		throw NumberFormatException("Not a number");
 	}
-	
-	int result = parseInt(inputString, base);
+	inputString = inputString.getStringFromIndex(index);
 	if (isNegative) {
-		return static_cast<Integer>(-result);
+		inputString = String("-") + inputString;
 	}
-	return static_cast<Integer>(result);
+	return static_cast<Integer>(parseInt(inputString, base));
 }
 
 int Integer::divideUnsigned(int dividend, int divisor) {
-- 
2.43.0


From c6e4ba09151825b294c59bb499f93096aa2c751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 029/152] fix: Integer::highestOneBit was wrong for negative
 values

---
 library/Java/Lang/Integer/Integer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index c9d9d54..4f4b13b 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -312,6 +312,9 @@ int Integer::divideUnsigned(int dividend, int divisor) {
 
 
 int Integer::highestOneBit(int inputInt) {
+	if (inputInt < 0) {
+		return MIN_VALUE;
+	}
 	inputInt |= ( inputInt >> 1 );
 	inputInt |= ( inputInt >> 2 );
 	inputInt |= ( inputInt >> 4 );
-- 
2.43.0


From 319f206152c5afc0ee27d3f48cbb85da45f6dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 030/152] fix: Integer::rotateLeft and rotateRight shifted by
 negative or oversized counts

---
 library/Java/Lang/Integer/Integer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 4f4b13b..8de71d6 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -518,12 +518,13 @@ int Integer::reverseBytes(int inputInt) {
 }
 
 int Integer::rotateLeft(int inputInt, int distance) {
-	inputInt = ( inputInt << distance ) | ((unsigned int) inputInt >> -distance );
-	return inputInt;
+	unsigned int bits = (unsigned int) inputInt;
+	return (int) (( bits << ( distance & 31 )) | ( bits >> ( -distance & 31 )));
 }
 
 int Integer::rotateRight(int inputInt, int distance) {
-	return ((unsigned int) inputInt >> distance ) | ( inputInt << -distance );
+	unsigned int bits = (unsigned int) inputInt;
+	return (int) (( bits >> ( distance & 31 )) | ( bits << ( -distance & 31 )));
 }
 
 String Integer::toString() const {
-- 
2.43.0


From 82b790b3f04fc84d5aeabd33a69f54249801d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 031/152] fix: Integer operator<< wrote to std::cout instead of
 its stream

---
 library/Java/Lang/Integer/Integer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Integer/Integer.hpp b/library/Java/Lang/Integer/Integer.hpp
index 2e2a454..2836f6d 100755
--- a/library/Java/Lang/Integer/Integer.hpp
+++ b/library/Java/Lang/Integer/Integer.hpp
@@ -731,7 +731,7 @@ namespace Java {
 						 * @return ostream
 						 */
 						friend std::ostream &operator<<(std::ostream &os, const Integer &target) {
-							std::cout << target.original;
+							os << target.original;
 							return os;
 						}
 						
-- 
2.43.0


From 5e6989d5891cfdf8fef0bf23b69f23eaa60981d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 032/152] fix: Integer division and remainder of MIN_VALUE by
 -1 killed the process

---
 library/Java/Lang/Integer/Integer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 8de71d6..bcb7f1b 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -159,7 +159,7 @@ Integer Integer::operator/(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	return this->original / target.original;
+	return (int) ((long) this->original / target.original);
 }
 
 Integer Integer::operator*(const Integer &target) {
@@ -170,7 +170,7 @@ Integer Integer::operator%(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	return this->original % target.original;
+	return (int) ((long) this->original % target.original);
 }
 
 Integer &Integer::operator+=(const Integer &target) {
@@ -191,7 +191,7 @@ Integer &Integer::operator/=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original /= target.original;
+	this->original = (int) ((long) this->original / target.original);
 	free(this->originalString);
 	asprintf(&this->originalString, "%d", this->original);
 	return *this;
@@ -208,7 +208,7 @@ Integer &Integer::operator%=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original %= target.original;
+	this->original = (int) ((long) this->original % target.original);
 	free(this->originalString);
 	asprintf(&this->originalString, "%d", this->original);
 	return *this;
-- 
2.43.0


From f7e9261b5e073bf85d8d301d195df954aa0babd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 033/152] fix: Character::digit knew only decimal and
 lower-case hexadecimal digits

---
 library/Java/Lang/Character/Character.cpp | 73 ++++-------------------
 1 file changed, 10 insertions(+), 63 deletions(-)

diff --git a/library/Java/Lang/Character/Character.cpp b/library/Java/Lang/Character/Character.cpp
index 7744625..32a3c2f 100755
--- a/library/Java/Lang/Character/Character.cpp
+++ b/library/Java/Lang/Character/Character.cpp
@@ -515,69 +515,16 @@ int Character::toCodePoint(unicode high, unicode low) {
 }
 
 int Character::digit(int codePoint, int radix) {
-	if (radix == 10) {
-		switch (codePoint) {
-			case (int) '0':
-				return 0;
-			case (int) '1':
-				return 1;
-			case (int) '2':
-				return 2;
-			case (int) '3':
-				return 3;
-			case (int) '4':
-				return 4;
-			case (int) '5':
-				return 5;
-			case (int) '6':
-				return 6;
-			case (int) '7':
-				return 7;
-			case (int) '8':
-				return 8;
-			case (int) '9':
-				return 9;
-			default:
-				return -1;
-		}
+	int value = -1;
+	if (codePoint >= (int) '0' && codePoint <= (int) '9') {
+		value = codePoint - (int) '0';
+	} else if (codePoint >= (int) 'a' && codePoint <= (int) 'z') {
+		value = codePoint - (int) 'a' + 10;
+	} else if (codePoint >= (int) 'A' && codePoint <= (int) 'Z') {
+		value = codePoint - (int) 'A' + 10;
 	}
-	if (radix == 16) {
-		switch (codePoint) {
-			case (int) '0':
-				return 0;
-			case (int) '1':
-				return 1;
-			case (int) '2':
-				return 2;
-			case (int) '3':
-				return 3;
-			case (int) '4':
-				return 4;
-			case (int) '5':
-				return 5;
-			case (int) '6':
-				return 6;
-			case (int) '7':
-				return 7;
-			case (int) '8':
-				return 8;
-			case (int) '9':
-				return 9;
-			case (int) 'a':
-				return 10;
-			case (int) 'b':
-				return 11;
-			case (int) 'c':
-				return 12;
-			case (int) 'd':
-				return 13;
-			case (int) 'e':
-				return 14;
-			case (int) 'f':
-				return 15;
-			default:
-				return -1;
-		}
+	if (radix < MIN_RADIX || radix > MAX_RADIX || value >= radix) {
+		return -1;
 	}
-	return -1;
+	return value;
 }
-- 
2.43.0


From 02013db6e0691406110613b135015d273beb7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 034/152] fix: Long::parseLong divided by a zero radix

---
 library/Java/Lang/Long/Long.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 5c328ee..f204719 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -370,6 +370,9 @@ long Long::parseLong(String s, int radix) {
 	long multmin;
 	int digit;
 	
+	if (radix < 2 || radix > 36) {
+		return -1;
+	}
 	if (length > 0) {
 		char firstChar = s.charAt(0);
 		if (firstChar < '0') { // Possible leading "+" or "-"
-- 
2.43.0


From 4041806b7195b96e865c153ee1067a2dcb6fca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 035/152] fix: Long::decode negated the error result, threw on
 a lone sign or prefix and rejected MIN_VALUE

---
 library/Java/Lang/Long/Long.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index f204719..595c9f7 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -169,11 +169,15 @@ Long Long::decode(String target) {
 		return -1;
 	}
 	
-	result = Long::parseLong(target.getStringFromIndex(index), radix);
+	if (index == target.length()) {
+		//FIXME: exception
+		return -1;
+	}
+	String digits = target.getStringFromIndex(index);
 	if (negative) {
-		result = -result.longValue();
+		digits = String("-") + digits;
 	}
-	
+	result = Long::parseLong(digits, radix);
 	return result;
 }
 
-- 
2.43.0


From 572049ac95ef0444468468e473ccf0a4447adf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 036/152] fix: Long::valueOf(String) read decimal text as octal
 or hexadecimal

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 595c9f7..9fe1d95 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -568,7 +568,7 @@ Long Long::valueOf(long l) {
  * @return Long
  */
 Long Long::valueOf(String s) {
-	Long result = decode(s);
+	Long result = parseLong(s);
 	return result;
 }
 
-- 
2.43.0


From 8b1ba5955da59c5356e2f0023811441dadbb2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 037/152] fix: Long::highestOneBit was wrong for negative
 values

---
 library/Java/Lang/Long/Long.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 9fe1d95..8ac7d5d 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -262,6 +262,9 @@ int Long::hashCode() {
  * @return long
  */
 long Long::highestOneBit(long i) {
+    if (i < 0) {
+        return MIN_VALUE;
+    }
 	i |= ( i >> 1 );
 	i |= ( i >> 2 );
 	i |= ( i >> 4 );
-- 
2.43.0


From 4754040f07cc593d542ed8f896e3f254ce28dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 038/152] fix: Long::rotateLeft and rotateRight copied the sign
 bit and shifted by negative counts

---
 library/Java/Lang/Long/Long.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 8ac7d5d..54d5a59 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -466,7 +466,8 @@ long Long::reverseBytes(long i) {
  * @return long
  */
 long Long::rotateLeft(long i, int distance) {
-	return (( i << distance ) | ( i >> -distance ));
+	unsigned long bits = (unsigned long) i;
+	return (long) (( bits << ( distance & 63 )) | ( bits >> ( -distance & 63 )));
 }
 
 /**
@@ -478,7 +479,8 @@ long Long::rotateLeft(long i, int distance) {
  * @return long
  */
 long Long::rotateRight(long i, int distance) {
-	return (( i >> distance ) | ( i << -distance ));
+	unsigned long bits = (unsigned long) i;
+	return (long) (( bits >> ( distance & 63 )) | ( bits << ( -distance & 63 )));
 }
 
 /**
-- 
2.43.0


From bd539f44c3f03b2a8688ce9991a513fea156b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 039/152] fix: Long::toString(long) always printed the first
 value it was called with

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 54d5a59..84524af 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -551,7 +551,7 @@ String Long::toString() const {
  * @return String
  */
 String Long::toString(long i) {
-	static Long result = i;
+	Long result = i;
 	return result.toString();
 }
 
-- 
2.43.0


From 82d5e3d44aa9c263a133a6fcaf1deb5da54a311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 040/152] fix: Long::signum was -1 for positive values

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 84524af..07270b5 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -499,7 +499,7 @@ short Long::shortValue() const {
  * @return int
  */
 int Long::signum(long i) {
-	return (int) (( i >> 63 ) | ( -i >> 63 ));
+	return (int) (( i >> 63 ) | (long) ((unsigned long) -i >> 63 ));
 }
 
 /**
-- 
2.43.0


From 568b735da2d29f7079d84a65fc3c452d8af4b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 041/152] fix: Long::toOctalString of a negative value repeated
 the sign bit

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 07270b5..de7329a 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -617,7 +617,7 @@ int Long::formatUnsignedLong(long val, int shift, Array<char> &buf, int offset,
 	
 	do {
 		buf[ offset + --charPos ] = digits[ ((int) val ) & mask ];
-		val >>= shift;
+		val = (long) ((unsigned long) val >> shift);
 	} while (val != 0 && charPos > 0);
 	
 	return charPos;
-- 
2.43.0


From 9631a33515a5929e455ff85b6038ff6abb3a211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 042/152] fix: Long::reverse and reverseBytes returned their
 argument unchanged

---
 library/Java/Lang/Long/Long.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index de7329a..449eac6 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -432,7 +432,10 @@ long Long::parseLong(String s, int radix) {
  * @return long
  */
 long Long::reverse(long i) {
-	return i;
+	i = (long) (( i & 0x5555555555555555L ) << 1 | (( i >> 1 ) & 0x5555555555555555L ));
+	i = (long) (( i & 0x3333333333333333L ) << 2 | (( i >> 2 ) & 0x3333333333333333L ));
+	i = (long) (( i & 0x0f0f0f0f0f0f0f0fL ) << 4 | (( i >> 4 ) & 0x0f0f0f0f0f0f0f0fL ));
+	return Long::reverseBytes(i);
 	/*
 	i = ( i & 0x5555555555555555L ) << 1 | ( i >> 1 ) & 0x5555555555555555L;
 	i = ( i & 0x3333333333333333L ) << 2 | ( i >> 2 ) & 0x3333333333333333L;
@@ -452,9 +455,8 @@ long Long::reverse(long i) {
  * @return long
  */
 long Long::reverseBytes(long i) {
-	return i;
-	//i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	//return (( i << 48 ) | (( i & 0xffff0000L ) << 16 ) | (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 ));
+	i = ( i & 0x00ff00ff00ff00ffL ) << 8 | (( i >> 8 ) & 0x00ff00ff00ff00ffL );
+	return (( i << 48 ) | (( i & 0xffff0000L ) << 16 ) | (( i >> 16 ) & 0xffff0000L ) | (( i >> 48 ) & 0xffffL ));
 }
 
 /**
-- 
2.43.0


From f785c3851e5169f628b9cd6c6f21877585033115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 043/152] fix: Long compound assignment left toString at the
 old value

---
 library/Java/Lang/Long/Long.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 449eac6..483d8e8 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -808,7 +808,7 @@ boolean Long::operator>=(const Long &target) const {
  * @param target
  */
 void Long::operator-=(const Long &target) {
-	this->original -= target.original;
+	*this = *this - target;
 }
 
 /**
@@ -817,7 +817,7 @@ void Long::operator-=(const Long &target) {
  * @param target
  */
 void Long::operator+=(const Long &target) {
-	this->original += target.original;
+	*this = *this + target;
 }
 
 /**
@@ -826,7 +826,7 @@ void Long::operator+=(const Long &target) {
  * @param target
  */
 void Long::operator*=(const Long &target) {
-	this->original *= target.original;
+	*this = *this * target;
 }
 
 /**
@@ -835,7 +835,7 @@ void Long::operator*=(const Long &target) {
  * @param target
  */
 void Long::operator/=(const Long &target) {
-	this->original /= target.original;
+	*this = *this / target;
 }
 
 /**
@@ -844,5 +844,5 @@ void Long::operator/=(const Long &target) {
  * @param target
  */
 void Long::operator%=(const Long &target) {
-	this->original %= target.original;
+	*this = *this % target;
 }
\ No newline at end of file
-- 
2.43.0


From 953619fc6017d2517d16c43622025a7807bae034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 044/152] fix: Long division by zero or of MIN_VALUE by -1
 killed the process

---
 library/Java/Lang/Long/Long.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 483d8e8..0d961e2 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -26,6 +26,7 @@
 
 #include "Long.hpp"
 #include "../Math/Math.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 
 using namespace Java::Lang;
 
@@ -694,6 +695,12 @@ Long Long::operator-(const Long &target) const {
  * @return
  */
 Long Long::operator/(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) {
+		return Long(-this->original);
+	}
 	Long result = this->original / target.original;
 	return result;
 }
@@ -705,6 +712,12 @@ Long Long::operator/(const Long &target) const {
  * @return
  */
 Long Long::operator%(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) {
+		return Long(0L);
+	}
 	Long result = this->original % target.original;
 	return result;
 }
-- 
2.43.0


From eae74e236e549a19af77fe26a9a9eba80c4223f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 045/152] fix: Short division by zero killed the process

---
 library/Java/Lang/Short/Short.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 5f330a3..4a1b90e 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Short.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 
 using namespace Java::Lang;
 
@@ -194,6 +195,9 @@ Short Short::operator*(const Short &target) {
  * @return Short
  */
 Short Short::operator/(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	return (this->original / target.original);
 }
 
@@ -203,6 +207,9 @@ Short Short::operator/(const Short &target) {
  * @return Short
  */
 Short Short::operator%(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	return (this->original % target.original);
 }
 
-- 
2.43.0


From 665364544799e72612c3342045f8d14d20f83733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 046/152] fix: Short::parseShort returned an uninitialised or
 wrapped value for bad text and read octal and hexadecimal

---
 library/Java/Lang/Short/Short.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 4a1b90e..849abb4 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -25,6 +25,8 @@
  */
 
 #include "Short.hpp"
+#include "../Integer/Integer.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 #include "../ArithmeticException/ArithmeticException.hpp"
 
 using namespace Java::Lang;
@@ -72,9 +74,11 @@ Short::~Short() {
  * @return short
  */
 Short Short::parseShort(String target) {
-    short result;
-    sscanf(target.toCharPointer(), "%hi", &result);
-	return (Short) result;
+    int result = Integer::parseInt(target);
+    if (result < -32768 || result > 32767) {
+    	throw NumberFormatException("Short out of range");
+    }
+    return (Short) (short) result;
 }
 
 /**
-- 
2.43.0


From 952c42f8f53e9a7778bf566f2e68fe40491dba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 047/152] fix: Float and Double bit conversion handles large,
 tiny and subnormal values

---
 library/Java/Lang/Double/Double.cpp | 221 +---------------------------
 library/Java/Lang/Float/Float.cpp   | 214 ++-------------------------
 2 files changed, 17 insertions(+), 418 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 37740cf..a5a546f 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -373,225 +373,20 @@ double Double::min(double doubleA, double doubleB) {
 //}
 
 String Double::doubleToBinary64StringType(double doubleInput) {
-    auto integerPartNormalizeForm = (string) allocateMemory(2048 * sizeof(char));
-    auto fractionPartNormalizeForm = (string) allocateMemory(54 * sizeof(char));
-    auto doubleInputNormalizeForm = (string) allocateMemory(2102 * sizeof(char));
-    auto resultDoubleToBinary64StringType = (string) allocateMemory(65 * sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartDoubleInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfDoubleInputNormalizeForm;
-
-    int sizeOfExponentPartBinary64 = 11;
-
-    int i;
-    int index;
-    int indexOfDotDoubleInputNormalizeForm;
-    int indexFirstBit1DoubleInputNormalizeForm;
-    int indexBeginFractionPartResultDoubleToBinary64StringType = 0;
-
-    int exponentBiasBinary64 = 1023;
-    int exponentDoubleInput;
-
-    double fractionPartDoubleInput;
-
-    for (i = 0; i <= 63; i++) {
-        doubleInputNormalizeForm[i] = '0';
-        resultDoubleToBinary64StringType[i] = '0';
-    }
-
-    for (i = 0; i <= 52; i++) {
-        integerPartNormalizeForm[i] = '0';
-        fractionPartNormalizeForm[i] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[2047] = '\0';
-    fractionPartNormalizeForm[53] = '\0';
-    doubleInputNormalizeForm[2101] = '\0';
-    resultDoubleToBinary64StringType[64] = '\0';
-
-    if (doubleInput >= 0) {
-        resultDoubleToBinary64StringType[0] = '0';
-    }
-
-    if (doubleInput < 0) {
-        resultDoubleToBinary64StringType[0] = '1';
-    }
-
-    if (doubleInput == 0) {
-        goto outPut;
-    }
-
-    if (doubleInput == POSITIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
-    if (doubleInput == NEGATIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "1111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
     if (isNaN(doubleInput)) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111111111111111111111111111111111111111111111111111111111");
-
-        goto outPut;
+        return "0111111111111111111111111111111111111111111111111111111111111111";
     }
 
-    /** Get |doubleInput| */
-    doubleInput = fabs(doubleInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartDoubleInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
+    unsigned long bits = 0;
+    if (doubleInput != 0) {
+        memcpy(&bits, &doubleInput, sizeof(bits));
     }
 
-    if (integerPartDoubleInput != 0) {
-        while (integerPartDoubleInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartDoubleInput = integerPartDoubleInput >> 1;
-        }
+    char result[65];
+    for (int index = 0; index < 64; index++) {
+        result[index] = ((bits >> (63 - index)) & 1) == 1 ? '1' : '0';
     }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    index = sizeOfIntegerPartNormalizeForm - 1;
-
-    while (integerPartDoubleInput != 0) {
-
-        if ((integerPartDoubleInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartDoubleInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartDoubleInput = integerPartDoubleInput >> 1;
-    }
-
-    fractionPartDoubleInput = doubleInput - integerPartDoubleInput;
-    index = 0;
-
-    while ((fractionPartDoubleInput != 0) && (index < 53)) {
-        fractionPartDoubleInput = fractionPartDoubleInput * 2;
-
-        int integerPart = static_cast<int> (floor(fractionPartDoubleInput));
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartDoubleInput = fractionPartDoubleInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to doubleInputNormalizeForm */
-    for (i = 0; i < sizeOfIntegerPartNormalizeForm; i++) {
-        doubleInputNormalizeForm[i] = integerPartNormalizeForm[i];
-    }
-
-    indexOfDotDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    doubleInputNormalizeForm[indexOfDotDoubleInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to doubleInputNormalizeForm
-     */
-    index = indexOfDotDoubleInputNormalizeForm + 1;
-    for (i = 0; i <= sizeOfFractionPartNormalizeForm; i++, index++) {
-        doubleInputNormalizeForm[index]
-                = fractionPartNormalizeForm[i];
-    }
-
-    sizeOfDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                     + sizeOfFractionPartNormalizeForm;
-
-    /** Assign value to indexFirstBit1DoubleInputNormalizeForm */
-    indexFirstBit1DoubleInputNormalizeForm = 1;
-    for (i = 0; i <= sizeOfDoubleInputNormalizeForm; i++) {
-        if (doubleInputNormalizeForm[i] == '1') {
-            indexFirstBit1DoubleInputNormalizeForm = i;
-            break;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    if (integerPartDoubleInput != 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm - 1;
-    }
-
-    if (integerPartDoubleInput == 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm;
-    }
-
-    exponentDoubleInput = powerExponentBase2 + exponentBiasBinary64;
-
-    index = sizeOfExponentPartBinary64;
-
-    while (exponentDoubleInput != 0) {
-
-        if ((exponentDoubleInput & 1) == 1) {
-            resultDoubleToBinary64StringType[index] = '1';
-        }
-
-        if ((exponentDoubleInput & 1) == 0) {
-            resultDoubleToBinary64StringType[index] = '0';
-        }
-
-        index--;
-        exponentDoubleInput = exponentDoubleInput >> 1;
-    }
-
-    indexBeginFractionPartResultDoubleToBinary64StringType
-            = sizeOfExponentPartBinary64 + 1;
-
-    index = indexBeginFractionPartResultDoubleToBinary64StringType;
-    i = indexFirstBit1DoubleInputNormalizeForm + 1;
-
-    for (index; index <= 63; index++) {
-        if (i == sizeOfDoubleInputNormalizeForm) {
-            break;
-        }
-
-        if (i == indexOfDotDoubleInputNormalizeForm) {
-            i++;
-        }
-
-        resultDoubleToBinary64StringType[index]
-                = doubleInputNormalizeForm[i];
-        i++;
-    }
-
-    outPut:
-    /** Return resultDoubleToBinary64StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(doubleInputNormalizeForm);
-
-    String result = resultDoubleToBinary64StringType;
-    free(resultDoubleToBinary64StringType);
-
+    result[64] = '\0';
     return result;
 }
 
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 3ee56b9..d6684a7 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -197,217 +197,21 @@ Float Float::valueOf(float inputFloat) {
 }
 
 String Float::floatToBinary32StringType(float floatInput) {
-    string integerPartNormalizeForm = (string) calloc (280, sizeof(char));
-    string fractionPartNormalizeForm = (string) calloc (25, sizeof(char));
-    string floatInputNormalizeForm = (string) calloc (280, sizeof(char));
-    string resultFloatToBinary32StringType
-            = (string) calloc (33, sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartFloatInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfFloatInputNormalizeForm;
-
-    int sizeOfExponentPartBinary32 = 8;
-
-    int indexOfFor;
-    int index;
-    int indexOfDotFloatInputNormalizeForm;
-    int indexFirstBit1FloatInputNormalizeForm;
-    int indexBeginFractionPartResultFloatToBinary32StringType = 0;
-
-    int exponentBiasBinary32 = 127;
-    int exponentFloatInput;
-
-    float fractionPartFloatInput;
-
-    for (indexOfFor = 0 ; indexOfFor <= 31; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = '0';
-        resultFloatToBinary32StringType[indexOfFor] = '0';
-    }
-
-    for (indexOfFor = 0 ; indexOfFor <= 23; indexOfFor++) {
-        integerPartNormalizeForm[indexOfFor] = '0';
-        fractionPartNormalizeForm[indexOfFor] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[279] = '\0';
-    fractionPartNormalizeForm[24] = '\0';
-    floatInputNormalizeForm[279] = '\0';
-    resultFloatToBinary32StringType[32] = '\0';
-
-    if (floatInput >= 0) {
-        resultFloatToBinary32StringType[0] = '0';
-    }
-
-    if (floatInput < 0) {
-        resultFloatToBinary32StringType[0] = '1';
-    }
-
-    if (floatInput == 0) {
-        goto outPut;
-    }
-
-    if (floatInput == Float::POSITIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "01111111100000000000000000000000");
-        goto outPut;
-    }
-
-    if (floatInput == Float::NEGATIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "11111111100000000000000000000000");
-        goto outPut;
-    }
-
     if (isNaN(floatInput)) {
-        strcpy(resultFloatToBinary32StringType, "01111111111111111111111111111111");
-
-        goto outPut;
+        return "01111111111111111111111111111111";
     }
 
-    /** Get |floatInput| */
-    floatInput = fabs(floatInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartFloatInput = (int) floor(floatInput);
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartFloatInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
-    }
-
-    if (integerPartFloatInput != 0) {
-        while (integerPartFloatInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartFloatInput = integerPartFloatInput >> 1;
-        }
+    unsigned int bits = 0;
+    if (floatInput != 0) {
+        memcpy(&bits, &floatInput, sizeof(bits));
     }
 
-    integerPartFloatInput = (int) floor(floatInput);
-    index = sizeOfIntegerPartNormalizeForm -1;
-    while (integerPartFloatInput != 0) {
-        if ((integerPartFloatInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartFloatInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartFloatInput = integerPartFloatInput >> 1;
+    char result[33];
+    for (int index = 0; index < 32; index++) {
+        result[index] = ((bits >> (31 - index)) & 1) == 1 ? '1' : '0';
     }
-
-    fractionPartFloatInput = floatInput - integerPartFloatInput;
-    index = 0;
-
-    while ((fractionPartFloatInput != 0) && (index < 24)) {
-        fractionPartFloatInput = fractionPartFloatInput * 2;
-
-        int integerPart = (int) floor(fractionPartFloatInput);
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartFloatInput = fractionPartFloatInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to floatInputNormalizeForm */
-    for (indexOfFor = 0; indexOfFor < sizeOfIntegerPartNormalizeForm; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = integerPartNormalizeForm[indexOfFor];
-    }
-
-    indexOfDotFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    floatInputNormalizeForm[indexOfDotFloatInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to floatInputNormalizeForm
-     */
-    index = indexOfDotFloatInputNormalizeForm +1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFractionPartNormalizeForm; indexOfFor++, index++) {
-        floatInputNormalizeForm[index]
-                = fractionPartNormalizeForm[indexOfFor];
-    }
-
-    sizeOfFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                    + sizeOfFractionPartNormalizeForm;
-
-    indexFirstBit1FloatInputNormalizeForm = 1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFloatInputNormalizeForm; indexOfFor++) {
-        if (floatInputNormalizeForm[indexOfFor] == '1') {
-            indexFirstBit1FloatInputNormalizeForm = indexOfFor;
-            break;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    if (integerPartFloatInput != 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm -1;
-    }
-
-    if (integerPartFloatInput == 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm;
-    }
-
-    exponentFloatInput = powerExponentBase2 + exponentBiasBinary32;
-
-    index = sizeOfExponentPartBinary32;
-
-    while (exponentFloatInput != 0) {
-        if ((exponentFloatInput & 1) == 1) {
-            resultFloatToBinary32StringType[index] = '1';
-        }
-
-        if ((exponentFloatInput & 1) == 0) {
-            resultFloatToBinary32StringType[index] = '0';
-        }
-
-        index--;
-        exponentFloatInput = exponentFloatInput >> 1;
-    }
-
-    indexBeginFractionPartResultFloatToBinary32StringType
-            = sizeOfExponentPartBinary32 + 1;
-
-    index = indexBeginFractionPartResultFloatToBinary32StringType;
-    indexOfFor = indexFirstBit1FloatInputNormalizeForm + 1;
-
-    for (index ; index <= 31; index++) {
-        if (indexOfFor == sizeOfFloatInputNormalizeForm) {
-            break;
-        }
-
-        if (indexOfFor == indexOfDotFloatInputNormalizeForm) {
-            indexOfFor++;
-        }
-
-        resultFloatToBinary32StringType[index]
-                = floatInputNormalizeForm[indexOfFor];
-        indexOfFor++;
-    }
-
-    outPut:
-    /** Return resultFloatToBinary32StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(floatInputNormalizeForm);
-    String result = resultFloatToBinary32StringType;
-    free(resultFloatToBinary32StringType);
-
-    return  result;
+    result[32] = '\0';
+    return result;
 }
 
 float Float::binary32StringTypeToFloat(String binary32StringTypeInput) {
-- 
2.43.0


From 2a87dbc1dc5690bcc088154fae63d5cd7796e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 048/152] fix: Double.longBitsToDouble decodes zero, subnormal
 and NaN codes

---
 library/Java/Lang/Double/Double.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index a5a546f..ef68cbe 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -299,17 +299,14 @@ boolean Double::isNaN() {
 }
 
 double Double::longBitsToDouble(long longBitsInput) {
-    if (Double::isNaN(longBitsInput)) {
-        return NaN;
+    unsigned long bits = longBitsInput;
+
+    if (longBitsInput < 0) {
+        bits = (0 - bits) | (1UL << 63);
     }
 
     double resultLongBitsToDouble;
-    String convertLongBitsToBinary64StringType;
-
-    convertLongBitsToBinary64StringType = longBitsToBinary64StringType(longBitsInput);
-
-    resultLongBitsToDouble = binary64StringTypeToDouble(convertLongBitsToBinary64StringType);
-
+    memcpy(&resultLongBitsToDouble, &bits, sizeof(bits));
     return resultLongBitsToDouble;
 }
 
-- 
2.43.0


From da5690e73a4d6e343aa36932c6ffa0f325e99eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 049/152] fix: Float and Double compound assignment updates the
 receiver

---
 library/Java/Lang/Double/Double.cpp | 16 ++++++++--------
 library/Java/Lang/Double/Double.hpp |  8 ++++----
 library/Java/Lang/Float/Float.cpp   | 16 ++++++++--------
 library/Java/Lang/Float/Float.hpp   |  8 ++++----
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index ef68cbe..378dfa3 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -184,20 +184,20 @@ Double &Double::operator=(const Double &target) {
     return *this;
 }
 
-Double Double::operator+=(const Double &target) const {
-    return (Double) (this->original + target.original);
+Double &Double::operator+=(const Double &target) {
+    return *this = Double(this->original + target.original);
 }
 
-Double Double::operator-=(const Double &target) const {
-    return (Double) (this->original - target.original);
+Double &Double::operator-=(const Double &target) {
+    return *this = Double(this->original - target.original);
 }
 
-Double Double::operator*=(const Double &target) const {
-    return (Double) (this->original * target.original);
+Double &Double::operator*=(const Double &target) {
+    return *this = Double(this->original * target.original);
 }
 
-Double Double::operator/=(const Double &target) const {
-    return (Double) (this->original / target.original);
+Double &Double::operator/=(const Double &target) {
+    return *this = Double(this->original / target.original);
 }
 
 int Double::compare(double double1, double double2) {
diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index 2291882..f57c5c6 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -228,7 +228,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator+=(const Double &target) const;
+            Double &operator+=(const Double &target);
 
             /**
              * Subtract AND assignment operator,
@@ -238,7 +238,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator-=(const Double &target) const;
+            Double &operator-=(const Double &target);
 
             /**
              * Multiply AND assignment operator,
@@ -248,7 +248,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator*=(const Double &target) const;
+            Double &operator*=(const Double &target);
 
             /**
              * Divide AND assignment operator,
@@ -258,7 +258,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator/=(const Double &target) const;
+            Double &operator/=(const Double &target);
 
             /**
              * Double to Char
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index d6684a7..3a85898 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -116,20 +116,20 @@ Float& Float::operator=(const Float &target) {
     return *this;
 }
 
-Float Float::operator+=(const Float &target) const {
-    return (Float) (this->original + target.original);
+Float &Float::operator+=(const Float &target) {
+    return *this = Float(this->original + target.original);
 }
 
-Float Float::operator-=(const Float &target) const {
-    return (Float) (this->original - target.original);
+Float &Float::operator-=(const Float &target) {
+    return *this = Float(this->original - target.original);
 }
 
-Float Float::operator*=(const Float &target) const {
-    return (Float) (this->original * target.original);
+Float &Float::operator*=(const Float &target) {
+    return *this = Float(this->original * target.original);
 }
 
-Float Float::operator/=(const Float &target) const {
-    return (Float) (this->original / target.original);
+Float &Float::operator/=(const Float &target) {
+    return *this = Float(this->original / target.original);
 }
 
 float Float::floatValue() const {
diff --git a/library/Java/Lang/Float/Float.hpp b/library/Java/Lang/Float/Float.hpp
index e1cc7ec..e7f3b40 100755
--- a/library/Java/Lang/Float/Float.hpp
+++ b/library/Java/Lang/Float/Float.hpp
@@ -271,7 +271,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator+=(const Float &target) const;
+						Float &operator+=(const Float &target);
 						
 						/**
 						 * Subtract AND assignment operator,
@@ -281,7 +281,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator-=(const Float &target) const;
+						Float &operator-=(const Float &target);
 						
 						/**
 						 * Multiply AND assignment operator,
@@ -291,7 +291,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator*=(const Float &target) const;
+						Float &operator*=(const Float &target);
 						
 						/**
 						 * Divide AND assignment operator,
@@ -301,7 +301,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator/=(const Float &target) const;
+						Float &operator/=(const Float &target);
 						
 						/**
 						 * Short value of Float
-- 
2.43.0


From 3048ad1ed52f228c5d7898f64194296cc49fd6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 050/152] fix: Float.parseFloat and Double.parseDouble reject
 text that is not a number

---
 library/Java/Lang/Double/Double.cpp |  9 +++++++--
 library/Java/Lang/Float/Float.cpp   | 11 ++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 378dfa3..bfc43df 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Double.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 
 using namespace Java::Lang;
 
@@ -63,8 +64,12 @@ Double::~Double() {
 }
 
 Double Double::parseDouble(String target) {
-    double result;
-    sscanf(target.toCharPointer(), "%lg", &result);
+    String text = target.trim();
+    string end = nullptr;
+    double result = strtod(text.toCharPointer(), &end);
+    if (text.isEmpty() || end != text.toCharPointer() + text.length()) {
+        throw NumberFormatException("Not a number");
+    }
     return result;
 }
 
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 3a85898..454b327 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -26,6 +26,7 @@
 
 #include "Float.hpp"
 #include "../Math/Math.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 
 using namespace Java::Lang;
 
@@ -161,9 +162,13 @@ String Float::toString() const {
 }
 
 Float Float::parseFloat(String inputString) {
-    float result;
-    sscanf(inputString.toCharPointer(), "%g", &result);
-    return (Float)result;
+    String text = inputString.trim();
+    string end = nullptr;
+    float result = strtof(text.toCharPointer(), &end);
+    if (text.isEmpty() || end != text.toCharPointer() + text.length()) {
+        throw NumberFormatException("Not a number");
+    }
+    return result;
 }
 
 boolean Float::isFinite(float valueFloat) {
-- 
2.43.0


From 2e1c083ff428c54781c64c9412f770e881a2ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 051/152] fix: Float and Double text form depends on the value
 only

---
 library/Java/Lang/Double/Double.cpp | 4 +---
 library/Java/Lang/Float/Float.cpp   | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index bfc43df..5e76fa5 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -29,9 +29,7 @@
 
 using namespace Java::Lang;
 
-Double::Double() {
-    this->original = 0;
-    asprintf(&this->originalString, "%lg", this->original);
+Double::Double() : Double(0.0) {
 }
 
 Double::Double(double original) {
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 454b327..2080426 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -113,7 +113,7 @@ boolean Float::operator||(const Float &target) const {
 Float& Float::operator=(const Float &target) {
     this->original = target.original;
     free(this->originalString);
-    asprintf(&this->originalString, "%f", this->original);
+    asprintf(&this->originalString, "%g", this->original);
     return *this;
 }
 
-- 
2.43.0


From 64f9ad605aa0fd47408c2d2cf4216b8022fcc80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 052/152] fix: std::hash of equal Float and Double values
 agrees for both zeros

---
 library/Java/Lang/Double/Double.hpp | 2 +-
 library/Java/Lang/Float/Float.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index f57c5c6..a19afa9 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -548,7 +548,7 @@ namespace Java {
 				
 				public:
 						inline size_t operator()(const Double &target) const {
-							return std::hash<std::string>{}(target.toString().toCharPointer());
+							return std::hash<long>{}(hashCode(target.original));
 						}
 				};
 		}  // namespace Lang
diff --git a/library/Java/Lang/Float/Float.hpp b/library/Java/Lang/Float/Float.hpp
index e7f3b40..32f3e3c 100755
--- a/library/Java/Lang/Float/Float.hpp
+++ b/library/Java/Lang/Float/Float.hpp
@@ -585,7 +585,7 @@ namespace Java {
 				
 				public:
 						inline size_t operator()(const Float &target) const {
-							return std::hash<std::string>{}(target.toString().toCharPointer());
+							return std::hash<int>{}(hashCode(target.original));
 						}
 				};
 		}  // namespace Lang
-- 
2.43.0


From efb6d467585c86f1c9ad278e4e5fb54b06a01788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 053/152] fix: Math.multiplyExact and toIntExact report every
 overflow

---
 library/Java/Lang/Math/Math.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 3d488fd..7d3ab17 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -290,7 +290,7 @@ double Math::min(double valueA, double valueB) {
 
 int Math::multiplyExact(int valueA, int valueB) {
 	long result = (long) valueA * (long) valueB;
-	if (result -  (int) result > 0) {
+	if (result != (int) result) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) result;
@@ -303,8 +303,8 @@ long Math::multiplyExact(long valueA, long valueB) {
 	}
 	
 	long result = valueA * valueB;
-	unsigned long absA = (unsigned) abs(valueA);
-	unsigned long absB = (unsigned) abs(valueB);
+	unsigned long absA = (unsigned long) abs(valueA);
+	unsigned long absB = (unsigned long) abs(valueB);
 	
 	if (((absA | absB) >> 31) != 0) {
 		if ((valueB != 0) && (result / valueB != valueA)) {
@@ -484,7 +484,7 @@ double Math::toDegrees(double angleRadian) {
 }
 
 int Math::toIntExact(long value) {
-	if (value - (int) value > 0) {
+	if (value != (int) value) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) value;
-- 
2.43.0


From 7ff388cf010e2039451b3d06eba5ab4bdba9c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 054/152] fix: Math.floorDiv and floorMod of MIN_VALUE by -1

---
 library/Java/Lang/Math/Math.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 7d3ab17..5543c59 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -142,6 +142,10 @@ int Math::floorDiv(int dividend, int divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (divisor == -1) {
+		return -dividend;
+	}
+
 	int result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
@@ -154,6 +158,10 @@ long Math::floorDiv(long dividend, long divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (divisor == -1) {
+		return -dividend;
+	}
+
 	long result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
-- 
2.43.0


From 44aeae14d1e4d0d8f03283068ad0c7dd364b2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 055/152] fix: Math.round rounds halves up and saturates

---
 library/Java/Lang/Math/Math.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 5543c59..c443c02 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -417,11 +417,36 @@ double Math::rint(double value) {
 }
 
 int Math::round(float value) {
-	return (int) ::roundf(value);
+	if (Float::isNaN(value)) {
+		return 0;
+	}
+
+	double result = ::floor((double) value + 0.5);
+	if (result >= Integer::MAX_VALUE) {
+		return Integer::MAX_VALUE;
+	}
+	if (result <= Integer::MIN_VALUE) {
+		return Integer::MIN_VALUE;
+	}
+	return (int) result;
 }
 
 long Math::round(double value) {
-	return (long) ::round(value);
+	if (Double::isNaN(value)) {
+		return 0;
+	}
+
+	double result = ::floor(value);
+	if (value - result >= 0.5) {
+		result = result + 1;
+	}
+	if (result >= (double) Long::MAX_VALUE) {
+		return Long::MAX_VALUE;
+	}
+	if (result <= (double) Long::MIN_VALUE) {
+		return Long::MIN_VALUE;
+	}
+	return (long) result;
 }
 
 float Math::scalb(float value, int scaleFactor) {
-- 
2.43.0


From e0121f62c4b2e1f7744cac6fa05bedf4358738e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 056/152] fix: Math.IEEERemainder is exact and rounds ties to
 even

---
 library/Java/Lang/Math/Math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index c443c02..4ab8b5e 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -221,7 +221,10 @@ double Math::hypot(double valueA, double valueB) {
 }
 
 inline double math_ieeeremainder(double dividend, double divisor) {
-	return dividend - ( round(dividend / divisor) * divisor );
+	if (Double::isInfinite(divisor)) {
+		return Double::NaN;
+	}
+	return ::remainder(dividend, divisor);
 }
 
 double Math::IEEERemainder(double dividend, double divisor) {
-- 
2.43.0


From d27c3ace050ab5049fff96af905c3b009f940d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 057/152] fix: Math.ulp and nextDown return the exact neighbour
 spacing

---
 library/Java/Lang/Math/Math.cpp | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 4ab8b5e..181d7c0 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -351,9 +351,6 @@ double Math::nextDown(double value) {
 	if (Double::isNaN(value) || value == Double::NEGATIVE_INFINITY) {
 		return value;
 	}
-	if (value == 0.0) {
-		return -Double::MIN_VALUE;
-	}
 	
 	return ::nexttoward(value, Double::NEGATIVE_INFINITY);
 }
@@ -540,20 +537,14 @@ float Math::ulp(float value) {
 		case Float::MAX_EXPONENT + 1:        // NaN or infinity
 			return Math::abs(value);
 		case Float::MIN_EXPONENT - 1:        // zero or subnormal
-			return Float::MIN_VALUE;
+			return std::numeric_limits<float>::denorm_min();
 		default:
 			if (exp > Float::MAX_EXPONENT || exp < Float::MIN_EXPONENT) {
 				throw AssertionError(exp);
 			}
 			
-			exp = exp - (Float::SIGNIFICAND_WIDTH - 1);
-			if (exp >= Float::MIN_EXPONENT) {
-				return powerOfTwoF(exp);
-			}
-			/*   return Float::intBitsToFloat(1 << (exp - (Float::MIN_EXPONENT
-														 - (Float::SIGNIFICAND_WIDTH - 1)) ));*/
+			return ::ldexpf(1.0f, exp - (Float::SIGNIFICAND_WIDTH - 1));
 	}
-	return 0.0;
 }
 
 double Math::ulp(double value) {
@@ -565,18 +556,12 @@ double Math::ulp(double value) {
 		case Double::MAX_EXPONENT + 1:        // NaN or infinity
 			return Math::abs(value);
 		case Double::MIN_EXPONENT - 1:        // zero or subnormal
-			return Double::MIN_VALUE;
+			return std::numeric_limits<double>::denorm_min();
 		default:
 			if (exp > Double::MAX_EXPONENT || exp < Double::MIN_EXPONENT) {
 				throw AssertionError(exp);
 			}
 			
-			exp = exp - (Double::SIGNIFICAND_WIDTH - 1);
-			if (exp >= Double::MIN_EXPONENT) {
-				return powerOfTwoD(exp);
-			}
-			
-			return Double::longBitsToDouble(1 << (exp - (Double::MIN_EXPONENT
-			                                             - (Double::SIGNIFICAND_WIDTH - 1))));
+			return ::ldexp(1.0, exp - (Double::SIGNIFICAND_WIDTH - 1));
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 60db4ede0a7923a18337ec4ae171cead43cd688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 058/152] fix: Math.max, min and abs follow IEEE rules for NaN
 and signed zeros

---
 library/Java/Lang/Math/Math.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 181d7c0..d038e18 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -35,7 +35,7 @@ int Math::abs(int value) {
 }
 
 float Math::abs(float value) {
-	return value >= 0 ? value : -value;
+	return ::fabsf(value);
 }
 
 long Math::abs(long value) {
@@ -47,7 +47,7 @@ double Math::abs(double value) {
 		return Double::NaN;
 	}
 	
-	return value >= 0 ? value : -value;
+	return ::fabs(value);
 }
 
 double Math::acos(double value) {
@@ -272,6 +272,12 @@ int Math::max(int valueA, int valueB) {
 }
 
 float Math::max(float valueA, float valueB) {
+	if (Float::isNaN(valueA)) {
+		return valueA;
+	}
+	if (valueA == valueB) {
+		return std::signbit(valueA) ? valueB : valueA;
+	}
 	return valueA > valueB ? valueA : valueB;
 }
 
@@ -280,6 +286,12 @@ long Math::max(long valueA, long valueB) {
 }
 
 double Math::max(double valueA, double valueB) {
+	if (Double::isNaN(valueA)) {
+		return valueA;
+	}
+	if (valueA == valueB) {
+		return std::signbit(valueA) ? valueB : valueA;
+	}
 	return valueA > valueB ? valueA : valueB;
 }
 
@@ -288,6 +300,12 @@ int Math::min(int valueA, int valueB) {
 }
 
 float Math::min(float valueA, float valueB) {
+	if (Float::isNaN(valueA)) {
+		return valueA;
+	}
+	if (valueA == valueB) {
+		return std::signbit(valueA) ? valueA : valueB;
+	}
 	return valueA < valueB ? valueA : valueB;
 }
 
@@ -296,6 +314,12 @@ long Math::min(long valueA, long valueB) {
 }
 
 double Math::min(double valueA, double valueB) {
+	if (Double::isNaN(valueA)) {
+		return valueA;
+	}
+	if (valueA == valueB) {
+		return std::signbit(valueA) ? valueA : valueB;
+	}
 	return valueA < valueB ? valueA : valueB;
 }
 
-- 
2.43.0


From 1dd7f6336be4b1f4e3fee98d64ed9c199a67ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 059/152] fix: Math.pow with a NaN or infinite exponent

---
 library/Java/Lang/Math/Math.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index d038e18..7cd54fa 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -408,6 +408,9 @@ double Math::nextUp(double value) {
 }
 
 double Math::pow(double base, double exponent) {
+	if (Double::isNaN(exponent) || (Double::isInfinite(exponent) && Math::abs(base) == 1.0)) {
+		return Double::NaN;
+	}
 	return ::pow(base, exponent);
 }
 
-- 
2.43.0


From 813a95798b55e15d22d628f424c20a2de7686b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 060/152] fix: Math.getExponent of negative subnormal values

---
 library/Java/Lang/Math/Math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 7cd54fa..f08aed0 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -190,7 +190,7 @@ int Math::getExponent(double value) {
 	double mantissas;
 	int exponent;
 	mantissas = std::frexp(value, &exponent);
-	if (mantissas * 10 >= 1.0 && exponent - 1 < Double::MIN_EXPONENT) {
+	if (exponent - 1 < Double::MIN_EXPONENT) {
 		return Double::MIN_EXPONENT - 1;
 	}
 	
@@ -209,7 +209,7 @@ int Math::getExponent(float value) {
 	double mantissas;
 	int exponent;
 	mantissas = std::frexp(value, &exponent);
-	if ((mantissas * 10) >= 1.0 && (exponent - 1) < Float::MIN_EXPONENT) {
+	if ((exponent - 1) < Float::MIN_EXPONENT) {
 		return Float::MIN_EXPONENT - 1;
 	}
 	
-- 
2.43.0


From f99c7fa65fa14057751e1857e218903c3dd2fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 061/152] fix: Bytes.valueOf(byte) used the byte cache after
 deleting it

---
 library/Java/Lang/Bytes/Bytes.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index 719a98b..808bd0f 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -145,9 +145,7 @@ long Bytes::toUnsignedLong(byte byteValue) {
 
 Bytes Bytes::valueOf(byte byteValue) {
     auto byteInstance = ByteCache::getInstance();
-    auto value = byteInstance->getByteAtIndex((int) byteValue);
-    delete byteInstance;
-    return value;
+    return byteInstance->getByteAtIndex((int) byteValue);
 }
 
 Bytes Bytes::valueOf(String stringValue) {
-- 
2.43.0


From d8f8ae0550c0ad25471ddd45ccbc999d59af57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 062/152] fix: Boolean(text) ignores case like parseBoolean

---
 library/Java/Lang/Boolean/Boolean.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/library/Java/Lang/Boolean/Boolean.cpp b/library/Java/Lang/Boolean/Boolean.cpp
index 7f01107..88aabb4 100644
--- a/library/Java/Lang/Boolean/Boolean.cpp
+++ b/library/Java/Lang/Boolean/Boolean.cpp
@@ -46,11 +46,7 @@ Boolean::Boolean(const boolean &target) {
  * @param target
  */
 Boolean::Boolean(const_string target) {
-	if (strcmp(target, "True") == 0) {
-		this->original = true;
-	} else {
-		this->original = false;
-	}
+	this->original = Boolean::parseBoolean(target);
 }
 
 /**
-- 
2.43.0


From 627112250f2523a6d09df85383f3491cb1125541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 063/152] fix: Boolean hash code and equality depend on the
 value

---
 library/Java/Lang/Boolean/Boolean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Boolean/Boolean.cpp b/library/Java/Lang/Boolean/Boolean.cpp
index 88aabb4..c5a3133 100644
--- a/library/Java/Lang/Boolean/Boolean.cpp
+++ b/library/Java/Lang/Boolean/Boolean.cpp
@@ -114,7 +114,7 @@ boolean Boolean::getBoolean(const_string target) {
  * @return long
  */
 int Boolean::hashCode() const {
-	return Object::hashCode();
+	return this->original ? 1231 : 1237;
 }
 
 /**
-- 
2.43.0


From 4eda07142192c61c93467177a5cdb595212a075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 064/152] fix: ArrayList.add(index) accepts the end position
 and rejects positions outside the list

---
 library/Java/Util/ArrayList/ArrayList.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 7d582cc..e504235 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -154,8 +154,10 @@ namespace Java {
 			 * @param element
 			 */
 			void add(int index, const E element) {
-				if (index < 0 || index > this->original.size() - 1) {
-					return;
+				if (index < 0 || index > this->size()) {
+					String message = "Index out of range: ";
+					message += Integer(index).stringValue();
+					throw IndexOutOfBoundsException(message);
 				}
 				this->original.insert(this->original.begin() + index, element);
 			}
-- 
2.43.0


From a1c35bafabcc11fefcc1a896c7e8608ddcb3779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 065/152] fix: ArrayList.set returns the replaced element

---
 library/Java/Util/ArrayList/ArrayList.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index e504235..15476d3 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -440,8 +440,9 @@ namespace Java {
 					message += Integer(index).stringValue();
 					throw IndexOutOfBoundsException(message);
 				}
+				E holder = this->original[index];
 				this->original[index] = element;
-				return this->original[index];
+				return holder;
 			}
 
 			/**
-- 
2.43.0


From 5e44ad431ed2c894a5fefd9a27e900ff48853f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 066/152] fix: ArrayList.ensureCapacity could not be
 instantiated

---
 library/Java/Util/ArrayList/ArrayList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 15476d3..a7dd36a 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -238,7 +238,7 @@ namespace Java {
 			 *
 			 * @param minCapacity
 			 */
-			void ensureCapacity(int minCapacity) const {
+			void ensureCapacity(int minCapacity) {
 				this->original.reserve(minCapacity);
 			}
 
-- 
2.43.0


From fa2d27d47e1ebfb8e6494ad73818285ebcea1263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 067/152] fix: Vector: initialise capacityIncrement when built
 from a list, copied or cloned

---
 library/Java/Util/Vector/Vector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index eac0eaf..319612a 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -90,7 +90,8 @@ namespace Java {
              * @param list
              */
             Vector(const std::initializer_list<E> &list) {
-                this->original.reserve(list.size());
+                            this->capacityIncrement = 0;
+                            this->original.reserve(list.size());
                 typename std::initializer_list<E>::iterator listIterator;
                 for (listIterator = list.begin();
                      listIterator != list.end(); listIterator++) {
@@ -105,7 +106,8 @@ namespace Java {
              * @param target
              */
             Vector(const Vector<E> &target) {
-                const E *targetData = target.original.data();
+                            this->capacityIncrement = target.capacityIncrement;
+                            const E *targetData = target.original.data();
                 int index;
                 for (index = 0; index < target.original.size(); index++) {
                     this->original.push_back(targetData[index]);
@@ -207,8 +209,8 @@ namespace Java {
              * @return Vector<E>
              */
             Vector<E> clone() const {
-                Vector<E> clonedVector;
-                const E *vectorData = this->original.data();
+                Vector<E> clonedVector(10, this->capacityIncrement);
+                                const E *vectorData = this->original.data();
                 int index;
                 for (index = 0; index < this->original.size(); index++) {
                     clonedVector.add(vectorData[index]);
-- 
2.43.0


From 729d317b402f262502c2b7faf447242cd391d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 068/152] fix: Vector: assigning a vector to itself must not
 empty it

---
 library/Java/Util/Vector/Vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 319612a..8dab4f2 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -889,7 +889,10 @@ namespace Java {
              * @return Vector<E>
              */
             Vector<E> &operator=(const Vector<E> &target) {
-                this->clear();
+                            if (this == &target) {
+                                return *this;
+                            }
+                            this->clear();
                 this->ensureCapacity(target.size());
                 const E *targetData = target.original.data();
                 int index;
-- 
2.43.0


From e15916d7f0451c36b32dc690519c9c86548c355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 069/152] fix: Vector: lastIndexOf on an empty vector returns
 -1 instead of throwing

---
 library/Java/Util/Vector/Vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 8dab4f2..57402c7 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -444,6 +444,9 @@ namespace Java {
              */
             int lastIndexOf(const E &element) const {
                 int maxIndex = (int) this->original.size() - 1;
+                                if (maxIndex < 0) {
+                                    return -1;
+                                }
                 return this->lastIndexOf(element, maxIndex);
             }
 
-- 
2.43.0


From d55d7d5ef2943de8502b3924e75ae2b3effe1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 070/152] fix: Vector: removing an object of a foreign type
 must not dereference null

---
 library/Java/Util/Vector/Vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 57402c7..5800a35 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -516,6 +516,9 @@ namespace Java {
              */
             boolean remove(const Object &element) {
                 const E *referenceToElement = dynamic_cast<const E *>(&element);
+                                if (referenceToElement == nullptr) {
+                                    return false;
+                                }
                 int index;
                 for (index = 0; index < this->original.size(); index++) {
                     if ((*referenceToElement) == this->original[index]) {
-- 
2.43.0


From 5024987340f0c96f937cf3095c009119eb80b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 071/152] fix: Vector: adding one of the vector's own elements
 must survive reallocation

---
 library/Java/Util/Vector/Vector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 5800a35..4f4e8d2 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -129,8 +129,9 @@ namespace Java {
              */
             boolean add(const E &element) {
                 int oldSize = (int) this->original.size();
-                this->ensureCapacity(oldSize + 1);
-                this->original.push_back(element);
+                                E newElement = element; // element may live in the storage being replaced
+                                this->ensureCapacity(oldSize + 1);
+                                this->original.push_back(newElement);
                 return (oldSize != this->original.size());
             }
 
@@ -145,8 +146,9 @@ namespace Java {
                 if (index < 0 || index > size) {
                     throw IllegalArgumentException("index is out of range");
                 }
-                this->ensureCapacity(size + 1);
-                this->original.insert(this->original.begin() + index, element);
+                E newElement = element; // element may live in the storage being replaced
+                                this->ensureCapacity(size + 1);
+                                this->original.insert(this->original.begin() + index, newElement);
             }
 
             /**
-- 
2.43.0


From c6a9f57cca7d1a3c39874ce71e3305a30e21a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 072/152] fix: Vector: addAll(list) appends at the end

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 4f4e8d2..12d49ea 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -158,7 +158,7 @@ namespace Java {
              * @return boolean
              */
             boolean addAll(const std::initializer_list<E> &list) {
-                return this->addAll(0, list);
+                return this->addAll(this->size(), list);
             }
 
             /**
-- 
2.43.0


From bc191e7a711189e5a627d611caa9e9b1e7552dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 073/152] fix: Vector: const index access throws
 IllegalArgumentException like every other access

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 12d49ea..6045474 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -883,7 +883,7 @@ namespace Java {
 
             const E &operator[](const int index) const {
                 if (index < 0 || index >= this->original.size()) {
-                    throw std::invalid_argument("index is out of range");
+                    throw IllegalArgumentException("index is out of range");
                 }
                 const E *vectorData = this->original.data();
                 return *(vectorData + index);
-- 
2.43.0


From 36d0e54297765afb33212bf8936b7a3f174446fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 074/152] fix: Stack: push returns the element even when it was
 one of the stack's own

---
 library/Java/Util/Stack/Stack.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Stack/Stack.hpp b/library/Java/Util/Stack/Stack.hpp
index 5daaeef..4c61460 100755
--- a/library/Java/Util/Stack/Stack.hpp
+++ b/library/Java/Util/Stack/Stack.hpp
@@ -87,8 +87,9 @@ namespace Java {
 						 * @return E
 						 */
 						E push(const E &element) {
-							this->addElement(element);
-							return element;
+							E pushedElement = element; // element may live in the storage being replaced
+							this->addElement(pushedElement);
+							return pushedElement;
 						}
 						
 						/**
-- 
2.43.0


From efc2a532fa180948956210f5ac5687fd36162012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 075/152] fix: LinkedList: copying a list must copy its nodes
 instead of sharing them

---
 library/Java/Util/LinkedList/LinkedList.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index b1c6490..8de1d31 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -80,6 +80,22 @@ namespace Java {
                         }
                     }
 
+                    LinkedList(const LinkedList<E> &target) {
+                        for (Node<E> *node : target.original) {
+                            this->add(node->element);
+                        }
+                    }
+
+                    LinkedList<E> &operator=(const LinkedList<E> &target) {
+                        if (this != &target) {
+                            this->clear();
+                            for (Node<E> *node : target.original) {
+                                this->add(node->element);
+                            }
+                        }
+                        return *this;
+                    }
+
                     ~LinkedList() {
                         this->clear();
                     }
-- 
2.43.0


From e0522b8517e9223174a8af72a8137403278c71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 076/152] fix: LinkedList: accessing an end of an empty list
 throws or returns the default value

---
 library/Java/Util/LinkedList/LinkedList.hpp | 31 +++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 8de1d31..2fd9dc6 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -181,7 +181,7 @@ namespace Java {
                      * @return E
                      */
                     E element() {
-                        this->original.front()->element;
+                        return getFirst();
                     }
 
                     /**
@@ -204,6 +204,9 @@ namespace Java {
                      * @return E
                      */
                     E getFirst() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException();
+                        }
                         return original.front()->element;
                     }
 
@@ -213,6 +216,9 @@ namespace Java {
                      * @return E
                      */
                     E getLast() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException();
+                        }
                         var node = this->original.back();
                         return node->element;
                     }
@@ -256,7 +262,7 @@ namespace Java {
                      * @return E
                      */
                     E peek() {
-                        return getFirst();
+                        return peekFirst();
                     }
 
                     /**
@@ -264,6 +270,9 @@ namespace Java {
                      * @return E
                      */
                     E peekFirst() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         return getFirst();
                     }
 
@@ -273,6 +282,9 @@ namespace Java {
                      * @return E
                      */
                     E peekLast() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         return getLast();
                     }
 
@@ -291,6 +303,9 @@ namespace Java {
                      * @return E
                      */
                     E pollFirst() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         var  node = this->original.front();
                         this->original.pop_front();
                         var element = node->element;
@@ -304,6 +319,9 @@ namespace Java {
                      * @return E
                      */
                     E pollLast() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         var node = this->original.back();
                         this->original.pop_back();
                         var element = node->element;
@@ -317,6 +335,9 @@ namespace Java {
                      * @return E
                      */
                     E pop() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException();
+                        }
                         return pollFirst();
                     }
 
@@ -335,6 +356,9 @@ namespace Java {
                      * @return E
                      */
                     E remove() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException();
+                        }
                         return pollFirst();
                     }
 
@@ -377,6 +401,9 @@ namespace Java {
                     }
 
                     E removeLast() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException();
+                        }
                         var node = this->original.back();
                          this->original.pop_back();
                          var element = node->element;
-- 
2.43.0


From 4a5d388321a55b6f3da2095b198d09151dcc81a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 077/152] fix: LinkedList: get on an empty list throws instead
 of reading past the end

---
 library/Java/Util/LinkedList/LinkedList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 2fd9dc6..cb80d33 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -191,7 +191,7 @@ namespace Java {
                      * @return E
                      */
                     E get(int index) {
-                        if (index < 0 || index > this->original.size() - 1) {
+                        if (index < 0 || index >= (int) this->original.size()) {
                             throw IndexOutOfBoundsException("Index is out of bounds!");
                         }
                         typename std::list<Node<E>*>::iterator it =  std::next(this->original.begin(), index);
-- 
2.43.0


From e378b9492409e26131c90a38cff95d883234032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 078/152] fix: LinkedList: offer appends its argument

---
 library/Java/Util/LinkedList/LinkedList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index cb80d33..f95550b 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -230,7 +230,7 @@ namespace Java {
                      * @return boolean
                      */
                     boolean offer(const E &element) {
-                        this->original.push_back();
+                        this->original.push_back(new Node<E>(element));
                         return true;
                     }
 
-- 
2.43.0


From e604797ca9827efaa039ba59baf8dc53189c1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 079/152] fix: LinkedList: remove reports a bad index or an
 absent node instead of claiming success

---
 library/Java/Util/LinkedList/LinkedList.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index f95550b..0ec0a5f 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -369,6 +369,9 @@ namespace Java {
                      * @return boolean
                      */
                     boolean remove(int index) {
+                        if (index < 0 || index >= (int) this->original.size()) {
+                            throw IndexOutOfBoundsException("Index is out of bounds!");
+                        }
                         int pos = 0;
                         for (typename std::list<Node<E>*>::iterator it = this->original.begin(); it != this->original.end(); ++it) {
                             if (pos == index) {
@@ -394,10 +397,10 @@ namespace Java {
                                 var node2 = *it;
                                 this->original.erase(it);
                                 delete node2;
-                                break;
-                            }
-                        }
-                        return true;
+                                return true;
+                                }
+                                }
+                                return false;
                     }
 
                     E removeLast() {
-- 
2.43.0


From 6832869b17c32f6b01befe994669daa80d306f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 080/152] fix: LinkedList: set stores the new element and
 returns the old one

---
 library/Java/Util/LinkedList/LinkedList.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 0ec0a5f..f6d3681 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -421,10 +421,10 @@ namespace Java {
                      * @param element
                      * @return E
                      */
-                    E set(int index, E &element) {
+                    E set(int index, const E &element) {
                         var value = get(index);
-                        *value = element;
-                        return element;
+                        (*std::next(this->original.begin(), index))->element = element;
+                        return value;
                     }
 
                     /**
-- 
2.43.0


From 4bb8900e83ff04de97833638a7c349229224ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 081/152] fix: PriorityQueue: polling an empty queue returns
 the default value instead of corrupting the heap

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 1a5757b..b51a481 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -196,9 +196,8 @@ namespace Java {
 						 * @return E
 						 */
 						E peek() const {
-							E defaultOfE;
 							if (this->original.empty()) {
-								return defaultOfE;
+								return E();
 							}
 							return this->original.front();
 						}
@@ -209,6 +208,9 @@ namespace Java {
 						 * @return E
 						 */
 						E poll() {
+							if (this->original.empty()) {
+								return E();
+							}
 							E result = this->peek();
 							std::pop_heap(this->original.begin(), this->original.end());
 							this->original.pop_back();
@@ -284,8 +286,7 @@ namespace Java {
 							}
 							// Add "null" terminator (but must use default value).
 							if (anArray.length > originalSize) {
-								E defaultOfE;
-								anArray[ indexOfArray ] = defaultOfE;
+								anArray[ indexOfArray ] = E();
 							}
 							return anArray;
 						}
-- 
2.43.0


From 0f5bf6505e148b692cbe29d3a75e2c3a37b0771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 082/152] fix: PriorityQueue: removing an element restores the
 heap order

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index b51a481..1b8be51 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -228,6 +228,7 @@ namespace Java {
 							targetIterator = std::find(this->original.begin(), this->original.end(), target);
 							if (targetIterator != this->original.end()) {
 								this->original.erase(targetIterator);
+																std::make_heap(this->original.begin(), this->original.end());
 								return true;
 							}
 							return false;
-- 
2.43.0


From a572fa681a4d943b9f8f7ec0406cc209ba23291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 083/152] fix: HashMap: put and putAll replace the value of a
 key that is already present

---
 library/Java/Util/HashMap/HashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 16e5450..599e7fe 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -400,7 +400,7 @@ namespace Java {
 			 * @param value
 			 */
 			void put(const K &key, const V &value) {
-				this->original.insert(std::pair<K, V>(key, value));
+				this->original[key] = value;
 			}
 
 			/**
-- 
2.43.0


From eeb2c666430cc87dc4a6fa5555e04b8335b82bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 084/152] fix: HashMap: an absent key yields the default value,
 not an uninitialised one

---
 library/Java/Util/HashMap/HashMap.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 599e7fe..b3e3e16 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -351,8 +351,7 @@ namespace Java {
 				if (iteratorToString == this->original.end()) {
 					// Default value if could not found
 					// Prevent null pointer reference
-					V value;
-				    return value;
+					return V();
 				}
 				return iteratorToString->second;
 			}
@@ -429,7 +428,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V putIfAbsent(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorFind = this->original.find(key);
 
 				if (iteratorFind == this->original.end()) {
@@ -453,7 +452,7 @@ namespace Java {
 			 * 					previously associated null with key.)
 			 */
 			V remove(const K &key) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -503,7 +502,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V replace(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
-- 
2.43.0


From 63bccc3bc2988db2c9bb9f863a3fd9e98a4b3cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 085/152] fix: HashMap: maps with different keys are not equal
 when the missing values are defaults

---
 library/Java/Util/HashMap/HashMap.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index b3e3e16..d48adc2 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -123,6 +123,9 @@ namespace Java {
 				}
 
 				for (var const &thisElement : this->original) {
+					if (!anotherHashMap.containsKey(thisElement.first)) {
+						return false;
+					}
 					V anotherValue = anotherHashMap.get(thisElement.first);
 					if (thisElement.second != anotherValue) {
 						return false;
-- 
2.43.0


From 8dee388563d9e3ad5ab029adc92b720049e8e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 086/152] fix: Map.Entry: order entries by key so that sets of
 entries are well formed; setValue returns the old value

---
 library/Java/Util/Map/Map.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Map/Map.hpp b/library/Java/Util/Map/Map.hpp
index f5da57b..559395a 100755
--- a/library/Java/Util/Map/Map.hpp
+++ b/library/Java/Util/Map/Map.hpp
@@ -164,11 +164,13 @@ namespace Java {
 								 * @return V
 								 */
 								V setValue(V value) {
+									V oldValue = this->value;
 									this->value = value;
-								}
-								
-								boolean operator<(const Map<K, V>::Entry &target) const {
-									return true;
+									return oldValue;
+									}
+
+									boolean operator<(const Map<K, V>::Entry &target) const {
+									return this->key < target.key;
 								}
 						};
 						
-- 
2.43.0


From 70fc06fafa5776f9e085e285cd6498283a0f607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 087/152] fix: Set: add returns false for an element that is
 already present

---
 library/Java/Util/Set/Set.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/library/Java/Util/Set/Set.hpp b/library/Java/Util/Set/Set.hpp
index ee73525..9e10407 100755
--- a/library/Java/Util/Set/Set.hpp
+++ b/library/Java/Util/Set/Set.hpp
@@ -77,10 +77,7 @@ namespace Java {
 						 */
 						boolean add(const E &e) {
 							auto insertResult = this->original.insert(e);
-							if (insertResult.first != this->original.end()) {
-								return true;
-							}
-							return false;
+							return insertResult.second;
 						}
 						
 						/**
-- 
2.43.0


From d1a42d5cad981fa3604ae69a7c2d0a9ad0dbce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 088/152] fix: Arrays: binary search must examine the last
 remaining candidate

---
 library/Java/Util/Arrays/Arrays.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index e8e1184..17275a4 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -444,6 +444,10 @@ namespace Java {
                     }
                 }
 
+                if (left == right && array[left] == key) {
+                    return left;
+                }
+
                 return -1;
             }
 
@@ -483,6 +487,10 @@ namespace Java {
                     }
                 }
 
+                if (left == right && array[left] == key) {
+                    return left;
+                }
+
                 return -1;
             }
 
-- 
2.43.0


From e913d9c08295d0fcdc9e978bfddb27ce40d3a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 089/152] fix: Arrays: binarySearch on a range honours its
 start

---
 library/Java/Util/Arrays/Arrays.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 17275a4..4aa75b0 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -175,7 +175,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             template<typename Type>
@@ -190,7 +190,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             COPY_OF(boolean);
-- 
2.43.0


From 50432a406b947bee24a3da865a604de12a75726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 090/152] fix: Arrays: copyOfRange may reach the end of the
 array

---
 library/Java/Util/Arrays/Arrays.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 4aa75b0..f2cba1e 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -612,8 +612,8 @@ namespace Java {
                 if (fromIndex < 0
                     || toIndex < 0
                     || toIndex < fromIndex
-                    || toIndex > original.length - 1) {
-                    return result;
+                    || toIndex > original.length) {
+                                        return result;
                 }
 
                 for (int index = fromIndex; index < toIndex; ++index) {
-- 
2.43.0


From 8a6972f4d59aec2d74d7cd42de709efcd1c4a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 091/152] fix: Arrays: copyOf pads with the default value of
 the element type

---
 library/Java/Util/Arrays/Arrays.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index f2cba1e..1b0ffc6 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -49,7 +49,7 @@ static int binarySearchByKey(TYPE array[],\
 #define COPY_OF(TYPE); \
 static Array<TYPE> copyOf(const Array<TYPE> &original,\
                             int newLength) {\
-    return copyOfOrigin(original, newLength, NULL);\
+    return copyOfOrigin(original, newLength, TYPE());\
 }
 
 #define COPY_OF_RANGE(TYPE); \
@@ -204,7 +204,7 @@ namespace Java {
             template<typename Type>
             static Array<Type> copyOf(Array<Type> original,
                                       int newLength) {
-                return copyOfOrigin(original, newLength, NULL);
+                return copyOfOrigin(original, newLength, Type());
             }
 
             template<typename Type, typename AnotherType>
-- 
2.43.0


From 2d58efe22639b070cb63313f73e2ef5426f97ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 092/152] fix: Arrays: the hash code of an empty array is 1

---
 library/Java/Util/Arrays/Arrays.hpp | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 1b0ffc6..1b55b68 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -81,9 +81,6 @@ static void fillByIndex(Array<TYPE> *array,\
 
 #define HASH_CODE(TYPE); \
 static int hashCode(Array<TYPE> array) {\
-    if (array.length == 0) {\
-        return 0;\
-    }\
     int result = 1;\
     for (TYPE element : array) {\
         result = 31 * result + element;\
@@ -314,10 +311,6 @@ namespace Java {
             HASH_CODE(short);
 
             static int hashCode(Array<boolean> array) {
-                if (array.length == 0) {
-                    return 0;
-                }
-
                 int result = 1;
                 for (boolean element : array) {
                     result = 31 * result + (element ? 1231 : 1237);
@@ -327,10 +320,6 @@ namespace Java {
             }
 
             static int hashCode(Array<double> array) {
-                if (array.length == 0) {
-                    return 0;
-                }
-
                 int result = 1;
                 for (double element : array) {
                     long bits = long(element);
@@ -340,10 +329,6 @@ namespace Java {
             }
 
             static int hashCode(Array<long> array) {
-                if (array.length == 0) {
-                    return 0;
-                }
-
                 int result = 1;
                 for (long element : array) {
                     int elementHash = (int) (element ^ (element >> 32));
@@ -354,10 +339,6 @@ namespace Java {
             }
 
             static int hashCode(Array<Object> array) {
-                if (array.length == 0) {
-                    return 0;
-                }
-
                 int result = 1;
                 for (Object element : array) {
                     result = 31 * result + element.hashCode();
-- 
2.43.0


From 0ad594dae72ed7781a2c9b41397692cf3ed12b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 093/152] fix: Arrays: hash floating point arrays by the bits
 of their elements

---
 library/Java/Util/Arrays/Arrays.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 1b55b68..4ee7aa0 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -306,7 +306,6 @@ namespace Java {
 
             HASH_CODE(byte);
             HASH_CODE(char);
-            HASH_CODE(float);
             HASH_CODE(int);
             HASH_CODE(short);
 
@@ -319,10 +318,21 @@ namespace Java {
                 return result;
             }
 
+            static int hashCode(Array<float> array) {
+                int result = 1;
+                for (float element : array) {
+                    int bits = 0;
+                    memcpy(&bits, &element, sizeof(element));
+                    result = 31 * result + bits;
+                }
+                return result;
+            }
+
             static int hashCode(Array<double> array) {
                 int result = 1;
                 for (double element : array) {
-                    long bits = long(element);
+                    long bits = 0;
+                    memcpy(&bits, &element, sizeof(element));
                     result = 31 * result + (int) (bits ^ (bits >> 32));
                 }
                 return result;
-- 
2.43.0


From c9303e40b0727a1e90f9822ae4848660ee0bb54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 094/152] fix: BitSet assignment frees its toString buffer once
 and survives self-assignment

---
 library/Java/Util/BitSet/BitSet.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index d144681..945e867 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -114,8 +114,9 @@ void BitSet::trimToSize() {
 void BitSet::cleanUp() {
     if (this->backupForToString != nullptr) {
         free(this->backupForToString);
+        this->backupForToString = nullptr;
+    }
     }
-}
 
 BitSet::BitSet() {
     this->initializeWords(BITS_PER_WORD);
@@ -771,6 +772,9 @@ boolean BitSet::operator==(const BitSet &target) const {
 }
 
 BitSet& BitSet::operator=(const BitSet &target) {
+    if (this == &target) {
+        return *this;
+    }
     this->cleanUp();
     this->words = Arrays::copyOf(target.words, target.words.length);
     this->wordsInUse = target.wordsInUse;
-- 
2.43.0


From 6e86cf33cf9715a00550dc71996698026bc7b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 095/152] fix: BitSet.flip(from, to) treats toIndex as
 exclusive at word boundaries

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 945e867..8c6edec 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -334,7 +334,7 @@ void BitSet::flip(int fromIndex, int toIndex) {
     }
 
     int startWordIndex = this->wordIndex(fromIndex);
-    int endWordIndex = this->wordIndex(toIndex);
+    int endWordIndex = this->wordIndex(toIndex - 1);
     this->expandTo(endWordIndex);
 
     long firstWordMask = WORD_MASK << fromIndex;
-- 
2.43.0


From 6c2872854a431b3cf252f6318b72249d4b852767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 096/152] fix: BitSet.intersects stops at the last common word

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 8c6edec..471b8ad 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -438,7 +438,7 @@ int BitSet::hashCode() const {
 boolean BitSet::intersects(const BitSet &set) {
     int endWordIndex = Math::min(this->wordsInUse, set.wordsInUse);
     int index;
-    for (index = 0; index <= endWordIndex; ++index) {
+    for (index = 0; index < endWordIndex; ++index) {
         if ((this->words[index] & set.words[index]) != 0) {
             return true;
         }
-- 
2.43.0


From a548860f216a61379468f9072f21193601c3f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 097/152] fix: BitSet masks its shift counts to the word size

---
 library/Java/Util/BitSet/BitSet.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 471b8ad..ab5d5f2 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -261,7 +261,7 @@ void BitSet::clear(int bitIndex) {
         return;
     }
 
-    this->words[indexOfWord] &= ~(1L << bitIndex);
+    this->words[indexOfWord] &= ~(1L << (bitIndex & BIT_INDEX_MASK));
     this->recalculateWordsInUse();
 }
 
@@ -284,7 +284,7 @@ void BitSet::clear(int fromIndex, int toIndex) {
         endWordIndex = this->wordsInUse - 1;
     }
 
-    long firstWordMask = WORD_MASK << fromIndex;
+    long firstWordMask = WORD_MASK << (fromIndex & BIT_INDEX_MASK);
     // In Java, the line below is equivalent to: long lastWordMask = wordMask >>> -toIndex;
     long lastWordMask = static_cast<unsigned long>(WORD_MASK) >> (-toIndex & 0b111111);
 
@@ -322,7 +322,7 @@ void BitSet::flip(int bitIndex) {
     }
     int indexOfWord = this->wordIndex(bitIndex);
     this->expandTo(indexOfWord);
-    this->words[indexOfWord] ^= (1L << bitIndex);
+    this->words[indexOfWord] ^= (1L << (bitIndex & BIT_INDEX_MASK));
     this->recalculateWordsInUse();
 }
 
@@ -337,7 +337,7 @@ void BitSet::flip(int fromIndex, int toIndex) {
     int endWordIndex = this->wordIndex(toIndex - 1);
     this->expandTo(endWordIndex);
 
-    long firstWordMask = WORD_MASK << fromIndex;
+    long firstWordMask = WORD_MASK << (fromIndex & BIT_INDEX_MASK);
     long lastWordMask = static_cast<unsigned long>(WORD_MASK) >> (-toIndex & 0b111111);
 
     if (startWordIndex == endWordIndex) {
@@ -374,7 +374,7 @@ boolean BitSet::get(int bitIndex) const {
     }
 
     // Checking current bit at bitIndex in word at wordIndex.
-    return ((this->words[indexOfWord] & (1L << bitIndex)) != 0);
+    return ((this->words[indexOfWord] & (1L << (bitIndex & BIT_INDEX_MASK))) != 0);
 }
 
 BitSet BitSet::get(int fromIndex, int toIndex) const {
@@ -403,7 +403,7 @@ BitSet BitSet::get(int fromIndex, int toIndex) const {
             result.words[index] = this->words[sourceIndex];
         } else {
             result.words[index] =
-                    (static_cast<unsigned long>(this->words[sourceIndex]) >> fromIndex) |
+                    (static_cast<unsigned long>(this->words[sourceIndex]) >> (fromIndex & BIT_INDEX_MASK)) |
                     (this->words[sourceIndex + 1] << (-fromIndex & 0b111111));
         }
     }
@@ -413,11 +413,11 @@ BitSet BitSet::get(int fromIndex, int toIndex) const {
             static_cast<unsigned long>(WORD_MASK) >> (-toIndex & 0b111111);
     if (((toIndex - 1) & BIT_INDEX_MASK) < (fromIndex & BIT_INDEX_MASK)) {
         result.words[targetWords - 1] =
-                (static_cast<unsigned long>(this->words[sourceIndex]) >> fromIndex) |
+                (static_cast<unsigned long>(this->words[sourceIndex]) >> (fromIndex & BIT_INDEX_MASK)) |
                         (words[sourceIndex+1] & lastWordMask) << (-fromIndex & 0b111111);
     } else {
         result.words[targetWords - 1] =
-                static_cast<unsigned long>(this->words[sourceIndex] & lastWordMask) >> fromIndex;
+                static_cast<unsigned long>(this->words[sourceIndex] & lastWordMask) >> (fromIndex & BIT_INDEX_MASK);
     }
 
     // Set wordsInUse correctly.
@@ -472,7 +472,7 @@ int BitSet::nextClearBit(int fromIndex) const {
         return fromIndex;
     }
 
-    long word = ~this->words[indexOfWord] & (WORD_MASK << fromIndex);
+    long word = ~this->words[indexOfWord] & (WORD_MASK << (fromIndex & BIT_INDEX_MASK));
 
     while (indexOfWord <= this->wordsInUse) {
         if (word != 0) {
@@ -501,7 +501,7 @@ int BitSet::nextSetBit(int fromIndex) const {
         return -1;
     }
 
-    long word = this->words[indexOfWord] & (WORD_MASK << fromIndex);
+    long word = this->words[indexOfWord] & (WORD_MASK << (fromIndex & BIT_INDEX_MASK));
 
     while (indexOfWord <= this->wordsInUse) {
         if (word != 0) {
@@ -592,7 +592,7 @@ void BitSet::set(int bitIndex) {
 
     int indexOfWord = this->wordIndex(bitIndex);
     this->expandTo(indexOfWord);
-    this->words[indexOfWord] |= (1L << bitIndex);
+    this->words[indexOfWord] |= (1L << (bitIndex & BIT_INDEX_MASK));
 }
 
 void BitSet::set(int bitIndex, boolean value) {
@@ -614,7 +614,7 @@ void BitSet::set(int fromIndex, int toIndex) {
     int endWordIndex = this->wordIndex(toIndex - 1);
     this->expandTo(endWordIndex);
 
-    long firstWordMask = WORD_MASK << fromIndex;
+    long firstWordMask = WORD_MASK << (fromIndex & BIT_INDEX_MASK);
     long lastWordMask =
             static_cast<unsigned long>(WORD_MASK) >> (-toIndex & 0b111111);
 
-- 
2.43.0


From d1709570dec3d9b7116ab1e3e8321ae3d9d4bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 098/152] fix: Semaphore waits and counts permits under one
 lock (permits were over-granted, wake-ups lost, acquire(n) took permits
 piecemeal)

---
 .../Util/Concurrent/Semaphore/Semaphore.cpp   | 67 ++++---------------
 .../Util/Concurrent/Semaphore/Semaphore.hpp   |  1 -
 2 files changed, 13 insertions(+), 55 deletions(-)

diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
index f124ded..8653655 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
@@ -70,11 +70,9 @@ void Concurrent::Semaphore::release() {
 }
 
 void Concurrent::Semaphore::release(int permits) {
-    std::unique_lock<std::mutex> locker(conditionMutexObject);
-    permitMutexObject.lock();
+    std::unique_lock<std::mutex> locker(permitMutexObject);
     permitCounter += permits;
-    permitMutexObject.unlock();
-    conditionObject.notify_one();
+    conditionObject.notify_all();
 }
 
 boolean Concurrent::Semaphore::tryAcquire() {
@@ -86,55 +84,16 @@ boolean Concurrent::Semaphore::tryAcquire(int permits) {
 }
 
 boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
-    int currentPermits = 0;
-    if (timeout < 0) {
-        for (int i = 0; i < permits; ++i) {
-            permitMutexObject.lock();
-            currentPermits = permitCounter;
-            permitMutexObject.unlock();
-
-            if (currentPermits == 0) {
-                std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-                conditionObject.wait(conditionLocker);
-            }
-
-            permitMutexObject.lock();
-            --permitCounter;
-            permitMutexObject.unlock();
-        }
-        return true;
-    } else {
-        {
-            std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
-            if (permits <= permitCounter) {
-                permitCounter -= permits;
-                return true;
-            }
-        }
-
-        long waitTime = timeout;
-        while (true) {
-            std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-            const long startTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count();
-            std::cv_status waitStatus = conditionObject.wait_for(
-                    conditionLocker, std::chrono::milliseconds(waitTime));
-            if (waitStatus == std::cv_status::timeout) {
-                return false;
-            }
-
-            const long elapsedTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count() - startTime;
-            waitTime -= elapsedTime;
-
-            {
-                std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
-                if (permits <= permitCounter) {
-                    permitCounter -= permits;
-                    return true;
-                }
-            }
-        }
+    std::unique_lock<std::mutex> locker(permitMutexObject);
+    auto available = [&]() { return permits <= permitCounter; };
+    // A deadline too far away to be represented is no deadline at all
+    static const long maxTimeout = 1000L * 60 * 60 * 24 * 365;
+    if (timeout < 0 || timeout > maxTimeout) {
+        conditionObject.wait(locker, available);
+    } else if (!conditionObject.wait_until(
+            locker, steady_clock::now() + milliseconds(timeout), available)) {
+        return false;
     }
+    permitCounter -= permits;
+    return true;
 }
-
diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
index 6faba4c..bb73eea 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
@@ -128,7 +128,6 @@ namespace Java {
 
             private:
                 std::mutex permitMutexObject;
-                std::mutex conditionMutexObject;
                 std::condition_variable conditionObject;
                 int permitCounter;
             };
-- 
2.43.0


From c4b798f41df51dd03a1c87890c5cd6c518e58e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 099/152] fix: Semaphore rejects negative permit counts

---
 library/Java/Util/Concurrent/Semaphore/Semaphore.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
index 8653655..ee291dd 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
@@ -70,6 +70,9 @@ void Concurrent::Semaphore::release() {
 }
 
 void Concurrent::Semaphore::release(int permits) {
+    if (permits < 0) {
+        throw IllegalArgumentException("Negative permits");
+    }
     std::unique_lock<std::mutex> locker(permitMutexObject);
     permitCounter += permits;
     conditionObject.notify_all();
@@ -84,6 +87,10 @@ boolean Concurrent::Semaphore::tryAcquire(int permits) {
 }
 
 boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
+    if (permits < 0) {
+        throw IllegalArgumentException("Negative permits");
+    }
+
     std::unique_lock<std::mutex> locker(permitMutexObject);
     auto available = [&]() { return permits <= permitCounter; };
     // A deadline too far away to be represented is no deadline at all
-- 
2.43.0


From 6a9b4f0a6b1fc4eee6eb2765dd2909f7c53c4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:31 +0000
Subject: [PATCH 100/152] fix: Thread without a target has nothing to run
 (running it called a method of a null pointer)

---
 library/Java/Lang/Thread/Thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index a79a1e5..8aee0f6 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -84,7 +84,9 @@ void Thread::setName(String name) {
 void Thread::init(Runnable *target, String name) {
     this->target = target;
     this->name = name;
-    this->func = std::bind(&Runnable::run, target);
+    if (target != nullptr) {
+        this->func = std::bind(&Runnable::run, target);
+    }
 }
 
 String Thread::getName() {
-- 
2.43.0


From d92117b2fbc593b16d511d56e70360b9b9df681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 101/152] fix: Thread life cycle: run overrides keep its state,
 every joiner returns, a second start is harmless, isAlive and getId hold from
 start, a detached thread may outlive its object

---
 library/Java/Lang/Thread/Thread.cpp | 77 +++++++++++++++++++----------
 library/Java/Lang/Thread/Thread.hpp | 21 +++++++-
 2 files changed, 70 insertions(+), 28 deletions(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index 8aee0f6..1e93237 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -48,36 +48,38 @@ Thread::Thread(std::function<void()> func) {
 }
 
 Thread::~Thread() {
+    std::unique_lock<std::mutex> locker(mutexObject);
+    if (detached) {
+        // The detached thread may go on without this object, but not
+        // before it has its own copy of what it has to run
+        state->ready.acquire();
+    }
+    locker.unlock();
     if (threadObject.joinable())
         threadObject.join();
-    if (semaphoreObject.availablePermits() > 0)
-        semaphoreObject.release(semaphoreObject.availablePermits());
 }
 
-void Thread::run() {
-    // set thread id
-    this->tid = (unsigned long)pthread_self();
+void Thread::execute(std::shared_ptr<State> state) {
+    currentThreadPtr = this;
+    run();
+    state->alive = false;
+    state->ready.release();
+    state->finished.release();
+}
 
-    // set tls
-    if (currentThreadPtr == nullptr) {
-        currentThreadPtr = this;
+void Thread::run() {
+    // A copy: this object may be destroyed once the thread is detached
+    std::function<void()> body = this->func;
+    if (currentThreadPtr == this) {
+        state->ready.release();
     }
-
-    mutexObject.lock();
-    alive = true;
-    mutexObject.unlock();
-
-    if (this->func) {
-        this->func();
+    if (body) {
+        body();
     }
-    semaphoreObject.release(1);
-
-    mutexObject.lock();
-    alive = false;
-    mutexObject.unlock();
 }
 
 void Thread::setName(String name) {
+    std::unique_lock<std::mutex> locker(mutexObject);
     this->name = name;
 }
 
@@ -90,22 +92,33 @@ void Thread::init(Runnable *target, String name) {
 }
 
 String Thread::getName() {
+    std::unique_lock<std::mutex> locker(mutexObject);
     return this->name;
 }
 
 boolean Thread::isAlive() {
-    std::unique_lock<std::mutex> locker(mutexObject);
-    return alive;
+    return state->alive;
 }
 
 unsigned long Thread::getId() {
+    std::unique_lock<std::mutex> locker(mutexObject);
     return this->tid;
 }
 
 void Thread::start() {
-    if (this->func && !isAlive()) {
-        threadObject = std::move(std::thread(&Thread::run, this));
+    std::unique_lock<std::mutex> locker(mutexObject);
+    if (started) {
+        return;
     }
+    state->alive = true;
+    try {
+        threadObject = std::thread(&Thread::execute, this, state);
+    } catch (...) {
+        state->alive = false;
+        throw;
+    }
+    started = true;
+    tid = (unsigned long) threadObject.native_handle();
 }
 
 void Thread::join() {
@@ -113,14 +126,26 @@ void Thread::join() {
 }
 
 void Thread::join(long millis) {
+    {
+        std::unique_lock<std::mutex> locker(mutexObject);
+        if (!started) {
+            return;
+        }
+    }
+
     if (millis > 0) {
-        semaphoreObject.tryAcquire(1, millis);
+        if (!state->finished.tryAcquire(1, millis)) {
+            return;
+        }
     } else {
-        semaphoreObject.acquire();
+        state->finished.acquire();
     }
+    // Leave the permit to the other threads which join
+    state->finished.release();
 }
 
 void Thread::detach() {
+    std::unique_lock<std::mutex> locker(mutexObject);
     if (this->detached) {
         throw IllegalArgumentException("Detached thread");
     } else {
diff --git a/library/Java/Lang/Thread/Thread.hpp b/library/Java/Lang/Thread/Thread.hpp
index 5dc85b7..6463cff 100755
--- a/library/Java/Lang/Thread/Thread.hpp
+++ b/library/Java/Lang/Thread/Thread.hpp
@@ -27,7 +27,11 @@
 #ifndef NATIVE_JAVA_LANG_THREAD_HPP
 #define NATIVE_JAVA_LANG_THREAD_HPP
 
+#include <atomic>
 #include <functional>
+#include <memory>
+#include <mutex>
+#include <thread>
 #include "../Object/Object.hpp"
 #include "../Runnable/Runnable.hpp"
 #include "../../Util/Concurrent/Semaphore/Semaphore.hpp"
@@ -38,12 +42,20 @@ namespace Java {
 		namespace Lang {
             class Thread : public Object, public virtual Runnable {
                 private:
-                    boolean alive = false;
+                    // What a running thread still needs once it is detached and
+                    // this object is gone
+                    struct State {
+                        std::atomic<bool> alive{false};
+                        Semaphore ready;
+                        Semaphore finished;
+                    };
+
+                    std::shared_ptr<State> state = std::make_shared<State>();
+                    boolean started = false;
                     boolean detached = false;
                     String name;
                     unsigned long tid = 0;
                     Runnable *target = nullptr;
-                    Semaphore semaphoreObject;
                     std::thread threadObject;
                     std::mutex mutexObject;
                     std::function<void()> func;
@@ -59,6 +71,11 @@ namespace Java {
                      */
                     void init(Runnable *target, String name);
 
+                    /**
+                     * Runs this thread's body on the started thread.
+                     */
+                    void execute(std::shared_ptr<State> state);
+
 				 public:
                     Thread();
                     Thread(Runnable* target);
-- 
2.43.0


From cf991433a414f32ce15e425288380b8c68c07de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 102/152] fix: ConcurrentHashMap::clear holds the table's locks
 while it clears (they were released at once)

---
 .../Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index 6b4b0db..c2e5d8e 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -678,7 +678,7 @@ namespace libcuckoo {
          * Removes all elements in the table, calling their destructors.
          */
         void clear() {
-            lock_all(normal_mode());
+            auto all_locks_manager = lock_all(normal_mode());
             cuckoo_clear();
         }
 
-- 
2.43.0


From 824c09febdaf6bfd822b2fadda9f39e0a4fea136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 103/152] fix: ConcurrentHashMap::get returns the default value
 for an absent key, not an uninitialised one

---
 .../Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp    | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index c6d99ec..56d5ce2 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -340,8 +340,7 @@ namespace Java {
                         var value = original.find(key);
                         return value;
                     } catch (std::out_of_range &exception) {
-                        V v;
-                        return v;
+                        return V();
                     }
                 }
 
-- 
2.43.0


From 3ffa835dc4a9ba20adf9743aa111efb7d1ba8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 104/152] fix: ConcurrentHashMap::putIfAbsent and replace work
 and are atomic (they did not compile)

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 39 +++++++++----------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 56d5ce2..ddf9d4c 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -400,12 +400,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V putIfAbsent(const K &key, const V &value) {
-                    try {
-                        value = original.find(key);
-                    } catch (std::out_of_range &e) {
-                        this->put(key, value);
-                    }
-                    return value;
+                    V result = V();
+                    original.upsert(key, [&result](const V &currentValue) {
+                        result = currentValue;
+                    }, value);
+                    return result;
                 }
 
                 /**
@@ -466,13 +465,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V replace(const K &key, const V &value) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()) {
-                        return result;
-                    }
-                    result = iteratorToString->second;
-                    this->put(key, value);
+                    V result = V();
+                    original.update_fn(key, [&](V &currentValue) {
+                        result = currentValue;
+                        currentValue = value;
+                    });
                     return result;
                 }
 
@@ -491,14 +488,14 @@ namespace Java {
                 boolean replace(const K &key,
                                 const V &oldValue,
                                 const V &newValue) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()
-                        || iteratorToString->second != oldValue) {
-                        return false;
-                    }
-                    this->put(key, newValue);
-                    return true;
+                    boolean replaced = false;
+                    original.update_fn(key, [&](V &currentValue) {
+                        if (currentValue == oldValue) {
+                            currentValue = newValue;
+                            replaced = true;
+                        }
+                    });
+                    return replaced;
                 }
 
                 /**
-- 
2.43.0


From 6dfb8f01a16b3b8a47162f382bf54dd5179bb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 105/152] fix: ConcurrentHashMap::remove is atomic (two
 removers could get one value, or remove another value than tested)

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index ddf9d4c..f6d31a8 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -418,14 +418,12 @@ namespace Java {
                  * 					previously associated null with key.)
                  */
                 V remove(const K &key) {
-                    V v;
-                    try {
-                        v = original.find(key);
-                        original.erase(key);
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return v;
+                    V result = V();
+                    original.erase_fn(key, [&result](V &currentValue) {
+                        result = currentValue;
+                        return true;
+                    });
+                    return result;
                 }
 
                 /**
@@ -439,16 +437,12 @@ namespace Java {
                  * 			false 		if otherwise
                  */
                 boolean remove(const K &key, const V &value) {
-                    try {
-                        var v = original.find(key);
-                        if (v == value) {
-                            original.erase(key);
-                            return true;
-                        }
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return false;
+                    boolean removed = false;
+                    original.erase_fn(key, [&](V &currentValue) {
+                        removed = currentValue == value;
+                        return removed;
+                    });
+                    return removed;
                 }
 
                 /**
-- 
2.43.0


From 25d8fe262a5a5f802fff7420ca209ea29ffbffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 106/152] fix: ConcurrentHashMap copy, clone, equals and size
 read a consistent table (raced with writers; clone and equals did not
 compile)

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index f6d31a8..4275c53 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -46,10 +46,23 @@ namespace Java {
                     public virtual Serializable {
 
             private:
-                libcuckoo::cuckoohash_map<K, V> original;
+                // mutable: reading the whole table has to lock it
+                mutable libcuckoo::cuckoohash_map<K, V> original;
                 typedef typename libcuckoo::cuckoohash_map<K, V>::locked_table::iterator IteratorType;
                 typedef typename libcuckoo::cuckoohash_map<K, V>::locked_table::const_iterator ConstIteratorType;
 
+                /**
+                 * All the mappings this map holds at one moment.
+                 */
+                std::vector<std::pair<K, V>> snapshot() const {
+                    std::vector<std::pair<K, V>> result;
+                    auto lockTable = original.lock_table();
+                    for (auto const &element : lockTable) {
+                        result.emplace_back(element.first, element.second);
+                    }
+                    return result;
+                }
+
             public:
                 /**
                  * Constructs an empty ConcurrentHashMap
@@ -64,7 +77,9 @@ namespace Java {
                  * 					are to be placed in this map
                  */
                 ConcurrentHashMap(const ConcurrentHashMap <K, V> &target) {
-                    original = target.original;
+                    for (auto const &element : target.snapshot()) {
+                        put(element.first, element.second);
+                    }
                 }
 
                 /**
@@ -90,12 +105,16 @@ namespace Java {
                  *          false if not equal
                  */
                 boolean equals(const ConcurrentHashMap <K, V> &anotherHashMap) {
-                    if (original.size() != anotherHashMap.size()) {
+                    auto const elements = snapshot();
+                    if ((long) elements.size() != anotherHashMap.size()) {
                         return false;
                     }
-                    for (var const &thisElement : this) {
-                        V anotherValue = anotherHashMap.get(thisElement.first);
-                        if (thisElement.second != anotherValue) {
+                    for (auto const &element : elements) {
+                        boolean same = false;
+                        anotherHashMap.original.find_fn(element.first, [&](const V &anotherValue) {
+                            same = element.second == anotherValue;
+                        });
+                        if (!same) {
                             return false;
                         }
                     }
@@ -131,11 +150,7 @@ namespace Java {
                  * @return ConcurrentHashMap<K, V>
                  */
                 ConcurrentHashMap <K, V> clone() const {
-                    ConcurrentHashMap < K, V > result;
-                    for (auto const &element : this) {
-                        result.put(element.first, element.second);
-                    }
-                    return result;
+                    return *this;
                 }
 
                 /**
@@ -498,7 +513,7 @@ namespace Java {
                  * @return int
                  */
                 long size() const {
-                    return original.size();
+                    return original.lock_table().size();
                 }
             };
         } // namespace Concurrent
-- 
2.43.0


From f3c9960f919e5c39e1b41318b33c0ad30ae748dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 107/152] fix: ConcurrentHashMap::forEach does not deadlock
 when its action uses the map

---
 .../Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp   | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 4275c53..9c0cf8d 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -321,14 +321,11 @@ namespace Java {
                  * @param action
                  */
                 void forEach(const std::function<boolean(K, V)> &action) {
-                    var lockTable = original.lock_table();
-                    auto it = lockTable.begin();
-                    var tableSize = lockTable.size();
-                    for (size_t i = 0; i < tableSize; ++i) {
-                        if (!action((*it).first, (*it).second)) {
+                    // The action may use this map, so the table cannot stay locked
+                    for (auto const &element : snapshot()) {
+                        if (!action(element.first, element.second)) {
                             break;
                         }
-                        it++;
                     }
                 }
 
-- 
2.43.0


From a9b0ccb16f31fca22ca18ebd2829fbbdf7226720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 108/152] fix: ConcurrentLinkedQueue::offer adds the element
 (it dropped it and reported success)

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index b2103dc..bfa15a1 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -61,6 +61,7 @@ namespace Java {
                 }
 
                 boolean offer(const E &e) {
+                    original.enqueue(e);
                     return true;
                 }
 
-- 
2.43.0


From b16fc34c23cb5f3556e154ba174677ff3b3c5782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 109/152] fix: ConcurrentLinkedQueue::poll of an empty queue
 returns the default value, not an uninitialised one

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index bfa15a1..442aa39 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -70,7 +70,7 @@ namespace Java {
                 }
 
                 E poll() {
-                    E e;
+                    E e = E();
                     original.try_dequeue(e);
                     return e;
                 }
-- 
2.43.0


From bd57dafbe57ac69b5fac04eec955f0b3c9263777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 110/152] fix: ConcurrentLinkedQueue::clear empties the queue
 (it did nothing)

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index 442aa39..3a48a6c 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -80,6 +80,9 @@ namespace Java {
                 }
 
                 void clear() {
+                    E e = E();
+                    while (original.try_dequeue(e)) {
+                    }
                 }
 
                 boolean contains(const E &e) {
-- 
2.43.0


From a7a7ea3840c39fe11425eb40489d88afdf0401a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 111/152] fix: Base64 MIME decoder sizes its output from the
 alphabet table (it indexed the input with the input's own bytes)

---
 library/Java/Util/Base64/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index f6aa555..a322707 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -323,7 +323,7 @@ int Base64::Decoder::outLength(const Array<byte> &source,
 				length -= sourceEndPosition - sourcePosition + 1;
 				break;
 			}
-			currentByteDecoded = source[ currentByte ];
+			currentByteDecoded = fromBase64Table[ currentByte ];
 			if (currentByteDecoded == -1) {
 				++nonAlphabet;
 			}
-- 
2.43.0


From 93514a00867bfe44494c899e42b6d7d9b67b5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 112/152] fix: Base64 MIME decoder skips bytes above 127 after
 the padding

---
 library/Java/Util/Base64/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index a322707..ddcfefb 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -412,7 +412,7 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 	// Anything left is invalid, if is not MIME.
 	// If MIME, ignore all none-base64 character.
 	while (sourcePosition < sourceStopPosition) {
-		if (this->isMime && fromBase64Table[ source[ sourcePosition++ ]] < 0) {
+		if (this->isMime && fromBase64Table[ source[ sourcePosition++ ] & 0xff ] < 0) {
 			continue;
 		}
 		throw InterruptedException(
-- 
2.43.0


From cce666c6cfcec72462c3c97cc8f8946f6d106f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 113/152] fix: Base64 decoder names the position of a bad
 ending byte (it added it to the message's address)

---
 library/Java/Util/Base64/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index ddcfefb..a8914f9 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -416,8 +416,8 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 			continue;
 		}
 		throw InterruptedException(
-			"Input byte array has incorrect ending byte at " +
-			sourcePosition);
+			String("Input byte array has incorrect ending byte at ") +
+			String::valueOf(sourcePosition));
 	}
 	
 	return destinationPosition;
-- 
2.43.0


From 0a10c52c1d3fdf6b440be1bd9875d89147bf42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 114/152] fix: Base64::getMimeEncoder with a line length below
 4 does not break lines (it overran its output)

---
 library/Java/Util/Base64/Base64.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index a8914f9..c518b30 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -454,6 +454,9 @@ Base64::Encoder Base64::getMimeEncoder(int lineLength,
 	}
 	// Rounded down to nearest multiple of 4.
 	int roundedLineLength = lineLength >> 2 << 2;
+	if (roundedLineLength == 0) {
+		return Encoder::RFC4648;
+	}
 	return Encoder(false, lineSeparator, roundedLineLength, true);
 }
 
-- 
2.43.0


From 2d402def351b8728fb23c91770f11005fde95844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 115/152] fix: Base64 reports malformed input and bad
 separators by IllegalArgumentException as documented

---
 library/Java/Util/Base64/Base64.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index c518b30..f243c3e 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -311,7 +311,7 @@ int Base64::Decoder::outLength(const Array<byte> &source,
 		if (this->isMime && fromBase64Table[ 0 ] == -1) {
 			return 0;
 		}
-		throw InterruptedException(
+		throw IllegalArgumentException(
 			"Input byte[] should at least have 2 bytes for based64 bytes");
 	}
 	if (this->isMime) {
@@ -376,7 +376,7 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 					// => Second '=' is missing.
 					// shiftTo == 6 && source[sourcePosition++] != '='
 					// => Byte after first '=' doesn't present for '='.
-					throw InterruptedException("Input byte array has wrong 4-byte ending unit");
+					throw IllegalArgumentException("Input byte array has wrong 4-byte ending unit");
 				}
 				break;
 			}
@@ -385,7 +385,7 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 			if (this->isMime) {
 				continue;
 			} else {
-				throw InterruptedException("Illegal base64 character");
+				throw IllegalArgumentException("Illegal base64 character");
 			}
 		}
 		groupBits |= ( currentByteDecoded << shiftTo );
@@ -406,7 +406,7 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 		destination[ destinationPosition++ ] = static_cast<byte>(groupBits >> 16);
 		destination[ destinationPosition++ ] = static_cast<byte>(groupBits >> 8);
 	} else if (shiftTo == 12) {
-		throw InterruptedException("Last unit does not have enough valid bits");
+		throw IllegalArgumentException("Last unit does not have enough valid bits");
 	}
 	
 	// Anything left is invalid, if is not MIME.
@@ -415,7 +415,7 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 		if (this->isMime && fromBase64Table[ source[ sourcePosition++ ] & 0xff ] < 0) {
 			continue;
 		}
-		throw InterruptedException(
+		throw IllegalArgumentException(
 			String("Input byte array has incorrect ending byte at ") +
 			String::valueOf(sourcePosition));
 	}
@@ -446,7 +446,7 @@ Base64::Encoder Base64::getMimeEncoder(int lineLength,
 		if (fromBase64Table[ currentByte & 0xff ] != -1) {
 			// If currentByte present for alphabet character.
 			// Because line separator must NOT contain alphabet character.
-			throw InterruptedException("Illegal base64 line separator character");
+			throw IllegalArgumentException("Illegal base64 line separator character");
 		}
 	}
 	if (lineLength < 0) {
-- 
2.43.0


From 6b695c717e00c4711f584a2e7f9b422ecf7ee790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 116/152] fix: a digest call resets the MessageDigest, so the
 next message starts afresh

---
 library/Java/Security/MessageDigest/MD5MessageDigest.cpp  | 1 +
 library/Java/Security/MessageDigest/SHA1MessageDigest.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
index 0ed6720..da47783 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
@@ -46,6 +46,7 @@ int MD5MessageDigest::engineDigest(byte *buffer, int len) {
     }
 
     memcpy(buffer, this->hash, sizeof(this->hash));
+    engineReset();
     return engineGetDigestLength();
 }
 
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
index 1c2f41c..6c9510d 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
@@ -24,6 +24,7 @@ int SHA1MessageDigest::engineDigest(byte *buffer, int len) {
     }
 
     memcpy(buffer, this->hash, sizeof(this->hash));
+    engineReset();
     return engineGetDigestLength();
 }
 
-- 
2.43.0


From 9555033c62662bd8285cbb14190659ef7fc93ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 117/152] fix: a copied or assigned MessageDigest owns its own
 state instead of sharing it and freeing it twice

---
 .../MessageDigest/MD5MessageDigest.cpp        |  5 +++++
 .../MessageDigest/MD5MessageDigest.hpp        |  2 ++
 .../Security/MessageDigest/MessageDigest.cpp  | 20 +++++++++++++++++++
 .../Security/MessageDigest/MessageDigest.hpp  |  6 ++++++
 .../MessageDigest/MessageDigestSpi.hpp        |  4 +++-
 .../MessageDigest/SHA1MessageDigest.cpp       |  5 +++++
 .../MessageDigest/SHA1MessageDigest.hpp       |  2 ++
 7 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
index da47783..8ab5c2e 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
@@ -63,3 +63,8 @@ void MD5MessageDigest::engineReset() {
 void MD5MessageDigest::engineUpdate(const byte *input, int len) {
     md5_append(&this->state, (const md5_byte_t*)input, len);
 }
+
+
+MessageDigestSpi *MD5MessageDigest::engineClone() const {
+    return new MD5MessageDigest(*this);
+}
diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.hpp b/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
index 18ab9e7..007eae1 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
@@ -46,6 +46,8 @@ namespace Java {
 
             void engineUpdate(const byte *input, int len) override;
 
+            MessageDigestSpi *engineClone() const override;
+
         private:
             byte hash[16];
             md5_state_t state;
diff --git a/library/Java/Security/MessageDigest/MessageDigest.cpp b/library/Java/Security/MessageDigest/MessageDigest.cpp
index ef3f712..ebf071e 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.cpp
@@ -44,6 +44,21 @@ MessageDigest MessageDigest::getInstance(const String &algorithm) {
     throw NoSuchAlgorithmException(algorithm + (string) " not found");
 }
 
+MessageDigest::MessageDigest(const MessageDigest &other) : MessageDigestSpi() {
+    this->spi = other.engineClone();
+    this->algorithm = other.algorithm;
+}
+
+MessageDigest &MessageDigest::operator=(const MessageDigest &other) {
+    if (this != &other) {
+        MessageDigestSpi *clone = other.engineClone();
+        delete this->spi;
+        this->spi = clone;
+        this->algorithm = other.algorithm;
+    }
+    return *this;
+}
+
 MessageDigest::~MessageDigest() {
     if (spi) {
         delete spi;
@@ -109,3 +124,8 @@ void MessageDigest::engineUpdate(const byte input[], int len) {
         spi->engineUpdate(input, len);
     }
 }
+
+
+MessageDigestSpi *MessageDigest::engineClone() const {
+    return spi ? spi->engineClone() : nullptr;
+}
diff --git a/library/Java/Security/MessageDigest/MessageDigest.hpp b/library/Java/Security/MessageDigest/MessageDigest.hpp
index 6d27ca5..2e804ff 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.hpp
@@ -38,6 +38,10 @@ namespace Java {
         public:
             static MessageDigest getInstance(const String &algorithm);
 
+            MessageDigest(const MessageDigest &other);
+
+            MessageDigest &operator=(const MessageDigest &other);
+
             ~MessageDigest();
 
             String getAlgorithm();
@@ -64,6 +68,8 @@ namespace Java {
 
             void engineUpdate(const byte input[], int len) override;
 
+            MessageDigestSpi *engineClone() const override;
+
         };
     } // namespace Security
 } // namespace Java
diff --git a/library/Java/Security/MessageDigest/MessageDigestSpi.hpp b/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
index 635345f..8de5c32 100644
--- a/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
@@ -37,7 +37,9 @@ namespace Java {
             virtual int engineGetDigestLength() = 0;
             virtual void engineReset() = 0;
             virtual void engineUpdate(const byte input[], int len)
-            = 0;
+                        = 0;
+            /** Returns a new object that continues from the state of this one */
+            virtual MessageDigestSpi *engineClone() const = 0;
         };
     } // namespace Security
 } // namespace Java
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
index 6c9510d..9e6022d 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
@@ -41,3 +41,8 @@ void SHA1MessageDigest::engineReset() {
 void SHA1MessageDigest::engineUpdate(const byte *input, int len) {
     SHA1_Update(&this->state, input, len);
 }
+
+
+MessageDigestSpi *SHA1MessageDigest::engineClone() const {
+    return new SHA1MessageDigest(*this);
+}
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
index df94783..fa0bfe2 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
@@ -45,6 +45,8 @@ namespace Java {
 
             void engineUpdate(const byte *input, int len) override;
 
+            MessageDigestSpi *engineClone() const override;
+
         private:
             byte hash[20];
             SHA_CTX state;
-- 
2.43.0


From d9d0a3bc1d6e5f36072b20eff65fc18ac077c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 118/152] fix: URLEncoder and URLDecoder process texts that
 contain NUL bytes to their end

---
 library/Java/Net/URLDecoder/URLDecoder.cpp | 2 +-
 library/Java/Net/URLEncoder/URLEncoder.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Net/URLDecoder/URLDecoder.cpp b/library/Java/Net/URLDecoder/URLDecoder.cpp
index 798a240..d7c59ec 100755
--- a/library/Java/Net/URLDecoder/URLDecoder.cpp
+++ b/library/Java/Net/URLDecoder/URLDecoder.cpp
@@ -61,7 +61,7 @@ String URLDecoder::decode(const String &source, const String &encoding) {
     // TODO(truongchauhien): String class need to be refactoring.
     auto &referenceToEncoding = const_cast<String &>(encoding);
     if (referenceToEncoding.toUpperCase() == "UTF-8") {
-        String decodedString = urlDecode(source.toCharPointer());
+        String decodedString = urlDecode(source);
         return decodedString;
     }
     // TODO(truongchauhien): Need "java.nio.charset.Charset" class and "Array<byte> getBytes(const Charset &) method".
diff --git a/library/Java/Net/URLEncoder/URLEncoder.cpp b/library/Java/Net/URLEncoder/URLEncoder.cpp
index 879a19a..cdd8dd2 100755
--- a/library/Java/Net/URLEncoder/URLEncoder.cpp
+++ b/library/Java/Net/URLEncoder/URLEncoder.cpp
@@ -63,7 +63,7 @@ String URLEncoder::encode(const String &source, const String &encoding) {
     // TODO(truongchauhien): String class need to be refactoring.
     auto &referenceToEncoding = const_cast<String &>(encoding);
     if (referenceToEncoding.toUpperCase() == "UTF-8") {
-        String encodedString = urlEncode(source.toCharPointer());
+        String encodedString = urlEncode(source);
         return encodedString;
     }
     // TODO(truongchauhien): Need "java.nio.charset.Charset" class and "Array<byte> getBytes(const Charset &) method".
-- 
2.43.0


From 7296c27344b1de68d44efeaacaf3d2656053de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 119/152] fix: URLDecoder reports a malformed escape by
 IllegalArgumentException instead of reading past the text

---
 library/Java/Net/URLDecoder/URLDecoder.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/library/Java/Net/URLDecoder/URLDecoder.cpp b/library/Java/Net/URLDecoder/URLDecoder.cpp
index d7c59ec..c36cc68 100755
--- a/library/Java/Net/URLDecoder/URLDecoder.cpp
+++ b/library/Java/Net/URLDecoder/URLDecoder.cpp
@@ -26,6 +26,7 @@
 
 #include "URLDecoder.hpp"
 #include "../../../../library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"
+#include "../../Lang/IllegalArgumentException/IllegalArgumentException.hpp"
 
 using namespace Java::Net;
 
@@ -43,10 +44,13 @@ inline String urlDecode(String target) {
     int targetIndex = 0;
     while (targetIndex < target.getSize()) {
         if (target[targetIndex] == '%') {
-            if (target[targetIndex + 1] && target[targetIndex + 2]) {
-                result += charFromHex(target[targetIndex + 1]) << 4 | charFromHex(target[targetIndex + 2]);
-                targetIndex += 2;
+            if (targetIndex + 2 >= target.getSize() ||
+                !isxdigit((unsigned char) target[targetIndex + 1]) ||
+                !isxdigit((unsigned char) target[targetIndex + 2])) {
+                throw IllegalArgumentException("Malformed escape sequence in the encoded string");
             }
+            result += (char) (charFromHex(target[targetIndex + 1]) << 4 | charFromHex(target[targetIndex + 2]));
+            targetIndex += 2;
         } else if (target[targetIndex] == '+') {
             result += ' ';
         } else {
-- 
2.43.0


From 6ee567b0ef1e35e72e7b026f96543edc0204b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 120/152] fix: UUID() takes its time from an initialised
 variable

---
 library/Java/Util/UUID/UUID.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index d904e20..d50e701 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -34,6 +34,7 @@
 UUID::UUID() {
 	this->mostSigBits = 0;
 	this->leastSigBits = 0;
+	this->timestamp = time(0);
 }
 
 /**
-- 
2.43.0


From 92dee221de7bd444aec0a8ee423ac6b64c9efa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 121/152] fix: UUID::variant reads the variant bits of all
 layouts

---
 library/Java/Util/UUID/UUID.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index d50e701..6d801ff 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -216,7 +216,11 @@ String UUID::toString() const {
  * @return int
  */
 int UUID::variant() const {
-	return (int) (( this->leastSigBits >> ( 64 - ( this->leastSigBits >> 62 ))) & ( this->leastSigBits >> 63 ));
+	unsigned long bits = (unsigned long) this->leastSigBits;
+	if (( bits >> 63 ) == 0) {
+		return 0;
+	}
+	return (int) ( bits >> ( 64 - ( bits >> 62 )));
 }
 
 /**
-- 
2.43.0


From 6c43eca97edba272209701a9058613398287cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 122/152] fix: UUID::fromString rejects malformed text by
 IllegalArgumentException

---
 library/Java/Util/UUID/UUID.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index 6d801ff..d9a0c0c 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "UUID.hpp"
+#include "../../Lang/IllegalArgumentException/IllegalArgumentException.hpp"
 
 /**
  * Default constructor
@@ -262,12 +263,20 @@ UUID UUID::timeUUID() {
 UUID UUID::fromString(String name) {
 	Array<String> components = name.split("-");
 	if (components.length != 5) {
-		//FIXME: an exception
-		return UUID();
+		throw IllegalArgumentException("Invalid UUID string: " + name);
 	}
-	
+
+	static const int digits[5] = {8, 4, 4, 4, 12};
 	int index;
 	for (index = 0; index < 5; ++index) {
+		int length = components[ index ].length();
+		boolean valid = length > 0 && length <= digits[ index ];
+		for (int position = 0; valid && position < length; ++position) {
+			valid = isxdigit((unsigned char) components[ index ].charAt(position)) != 0;
+		}
+		if (!valid) {
+			throw IllegalArgumentException("Invalid UUID string: " + name);
+		}
 		components[ index ] = "0x" + components[ index ];
 	}
 	
-- 
2.43.0


From e784e06ff92d2d5e7e5e3d33fc4bcd462f15121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 123/152] fix: UUID time generation is serialised, so
 concurrent calls do not race or repeat a value

---
 library/Java/Util/UUID/UUID.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index d9a0c0c..b8713d8 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -24,6 +24,7 @@
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <mutex>
 #include "UUID.hpp"
 #include "../../Lang/IllegalArgumentException/IllegalArgumentException.hpp"
 
@@ -248,7 +249,12 @@ UUID UUID::randomUUID() {
 
 UUID UUID::timeUUID() {
     uuid_t uuid;
-    uuid_generate_time_safe(uuid);
+    {
+        // the generator keeps its clock and sequence in static variables
+        static std::mutex generatorMutex;
+        std::lock_guard<std::mutex> guard(generatorMutex);
+        uuid_generate_time_safe(uuid);
+    }
     char uuid_str[37];
     uuid_unparse_lower(uuid, uuid_str);
 	return UUID::fromString(uuid_str);
-- 
2.43.0


From f6574f20a679f17bb3271a39fad6ef64f2b0a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 124/152] fix: Random computes its sequence without signed
 overflow

---
 library/Java/Util/Random/Random.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index f92defb..15f5f87 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -89,7 +89,7 @@ long Random::seedUniquifier() {
 	long next = 0;
 	do {
 		current = seedUniquifierField.load();
-		next = current * 181783497276652981L;
+		next = (long) ((unsigned long) current * 181783497276652981UL);
 	} while (!seedUniquifierField.compare_exchange_strong(current, next));
     return next;
 }
@@ -128,7 +128,7 @@ int Random::next(int bits) {
 	long nextSeed = 0;
 	do {
 		oldSeed = seed.load();
-		nextSeed = (( oldSeed * MULTIPLIER + ADDEND ) & MASK );
+		nextSeed = (long) (((unsigned long) oldSeed * (unsigned long) MULTIPLIER + (unsigned long) ADDEND ) & (unsigned long) MASK );
 	} while (!seed.compare_exchange_weak(oldSeed, nextSeed));
 	return (int) ( nextSeed >> ( 48 - bits ));
 }
-- 
2.43.0


From 53c9521567df2551ef8b23fb5685089480f576f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 125/152] fix: Random::nextInt(bound) rejects draws above the
 last whole multiple of the bound

---
 library/Java/Util/Random/Random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index 15f5f87..aaed3e6 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -174,7 +174,7 @@ int Random::nextInt(int bound) {
 	do {
 		bits = next(31);
 		value = bits % bound;
-	} while (bits - value + ( bound - 1 ) < 0);
+	} while ((long) bits - value + ( bound - 1 ) > Integer::MAX_VALUE);
 	return value;
 }
 
-- 
2.43.0


From ccd4804acd5b3d83652806a1a780e24f5b338d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 126/152] fix: Random::nextBytes fills the array four bytes per
 draw

---
 library/Java/Util/Random/Random.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index aaed3e6..a1f3ac1 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -187,11 +187,14 @@ int Random::nextInt(int bound) {
 void Random::nextBytes(Array<byte> *bytes) {
 	int len = bytes->length;
 	int index = 0;
-	for (index; index < len; index++) {
+	while (index < len) {
+		// one random int gives four bytes, the lowest one first
 		int randomNumber = nextInt();
-		//TODO change to BYTE::SIZE
-		randomNumber >>= 8;
-		bytes->push((byte) randomNumber);
+		for (int count = 0; count < 4 && index < len; count++) {
+			(*bytes)[ index++ ] = (byte) randomNumber;
+			//TODO change to BYTE::SIZE
+			randomNumber >>= 8;
+		}
 	}
 }
 
-- 
2.43.0


From e9c72afef4aad2d9dd982b246573e1a0840fdeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 127/152] fix: Random::nextDouble and nextLong draw their high
 bits first

---
 library/Java/Util/Random/Random.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index a1f3ac1..19cd2fe 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -205,7 +205,10 @@ void Random::nextBytes(Array<byte> *bytes) {
  * @return double
  */
 double Random::nextDouble() {
-	return (((long) ( next(26)) << 27 ) + next(27)) * DOUBLE_UNIT;
+	// two statements, because the operands of + have no evaluation order
+	long high = next(26);
+	long low = next(27);
+	return (( high << 27 ) + low ) * DOUBLE_UNIT;
     //return (((long) ( next(26)) << 27 ) + next(27));
 }
 
@@ -215,7 +218,8 @@ double Random::nextDouble() {
  * @return long
  */
 long Random::nextLong() {
-	return ((long) ( next(32)) << 32 ) + next(32);
+	unsigned long high = (unsigned long) next(32) << 32;
+	return (long) ( high + (unsigned long) (long) next(32));
 }
 
 /**
-- 
2.43.0


From de09befaa3f9b2f9acd0b401f3ed6d68020cc41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 128/152] fix: Random::nextGaussian is usable from several
 threads and a copied Random keeps its spare value

---
 library/Java/Util/Random/Random.cpp | 5 +++++
 library/Java/Util/Random/Random.hpp | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index 19cd2fe..0923af5 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -114,7 +114,10 @@ void Random::resetSeed(long seedVal) {
  * @param other
  */
 Random::Random(const Random &other) {
+	std::lock_guard<std::mutex> guard(other.gaussianMutex);
 	this->seed.store(other.seed.load());
+	this->haveNextGaussianNumber = other.haveNextGaussianNumber;
+	this->nextGaussianNumber = other.nextGaussianNumber;
 }
 
 /**
@@ -239,6 +242,7 @@ float Random::nextFloat() {
  * @return double
  */
 double Random::nextGaussian() {
+    std::lock_guard<std::mutex> guard(this->gaussianMutex);
 	if (haveNextGaussianNumber) {
 		haveNextGaussianNumber = false;
 		return nextGaussianNumber;
@@ -262,6 +266,7 @@ double Random::nextGaussian() {
  * @param seed
  */
 void Random::setSeed(long seed) {
+    std::lock_guard<std::mutex> guard(this->gaussianMutex);
 	this->seed.store(initialScramble(seed));
 	haveNextGaussianNumber = false;
 }
diff --git a/library/Java/Util/Random/Random.hpp b/library/Java/Util/Random/Random.hpp
index 6a954d2..466a966 100755
--- a/library/Java/Util/Random/Random.hpp
+++ b/library/Java/Util/Random/Random.hpp
@@ -27,6 +27,7 @@
 #ifndef NATIVE_JAVA_UTIL_RANDOM_HPP
 #define NATIVE_JAVA_UTIL_RANDOM_HPP
 
+#include <mutex>
 #include "../../Lang.hpp"
 #define CHAR_LIST "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
 
@@ -44,7 +45,8 @@ namespace Java {
 						static const long MASK = (1L << 48 ) - 1;
 						static constexpr double DOUBLE_UNIT = 1.0 / ( 1L << 53 );
 						boolean haveNextGaussianNumber = false;
-						double nextGaussianNumber;
+						double nextGaussianNumber = 0;
+						mutable std::mutex gaussianMutex;
 						//static long seedOffset;
 				
 				public:
-- 
2.43.0


From e70bdbfe8bbb24af49b9bee8aaafdebc9c5ae746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 129/152] fix: Random::nextString handles any length without
 overflow

---
 library/Java/Util/Random/Random.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index 0923af5..4e9b570 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -277,14 +277,16 @@ void Random::setSeed(long seed) {
  * @return
  */
 String Random::nextString(int length) {
-	char charArray[length];
+	if (length < 0) {
+		throw IllegalArgumentException("length must not be negative");
+	}
+	std::string charArray((size_t) length, '\0');
 	int charListLength = 62;
 	int index;
 	for (index = 0; index < length; ++index) {
-		charArray[ index ] = CHAR_LIST[ nextInt(charListLength) ];
+		charArray[ (size_t) index ] = CHAR_LIST[ nextInt(charListLength) ];
 	}
-	charArray[ length ] = 0;
-	String result = &charArray[ 0 ];
+	String result = charArray;
 	return result;
 }
 
-- 
2.43.0


From 03015b4a48a7c0e006442d4a2265c4ba12774a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 130/152] fix: MediaType defines its declared *_TYPE constants

---
 library/Javax/Ws/Rs/Core/MediaType.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/library/Javax/Ws/Rs/Core/MediaType.cpp b/library/Javax/Ws/Rs/Core/MediaType.cpp
index 43748a5..a8ea03a 100644
--- a/library/Javax/Ws/Rs/Core/MediaType.cpp
+++ b/library/Javax/Ws/Rs/Core/MediaType.cpp
@@ -46,18 +46,18 @@ const String MediaType::TEXT_PLAIN                    = "text/plain";
 const String MediaType::TEXT_XML                      = "text/xml";
 const String MediaType::WILDCARD                      = "*/*";
 
-const MediaType APPLICATION_ATOM_XML_TYPE             = MediaType("application","atom+xml");
-const MediaType APPLICATION_FORM_URLENCODED_TYPE      = MediaType("application","x-www-form-urlencoded");
-const MediaType APPLICATION_JSON_TYPE                 = MediaType("application","json");
-const MediaType APPLICATION_OCTET_STREAM_TYPE         = MediaType("application","octet-stream");
-const MediaType APPLICATION_SVG_XML_TYPE              = MediaType("application","svg+xml");
-const MediaType APPLICATION_XHTML_XML_TYPE            = MediaType("application","xhtml+xml");
-const MediaType APPLICATION_XML_TYPE                  = MediaType("application","xml");
-const MediaType MULTIPART_FORM_DATA_TYPE              = MediaType("multipart","form-data");
-const MediaType TEXT_HTML_TYPE                        = MediaType("text","html");
-const MediaType TEXT_PLAIN_TYPE                       = MediaType("text","plain");
-const MediaType TEXT_XML_TYPE                         = MediaType("text","xml");
-const MediaType WILDCARD_TYPE                         = MediaType();
+const MediaType MediaType::APPLICATION_ATOM_XML_TYPE             = MediaType("application","atom+xml");
+const MediaType MediaType::APPLICATION_FORM_URLENCODED_TYPE      = MediaType("application","x-www-form-urlencoded");
+const MediaType MediaType::APPLICATION_JSON_TYPE                 = MediaType("application","json");
+const MediaType MediaType::APPLICATION_OCTET_STREAM_TYPE         = MediaType("application","octet-stream");
+const MediaType MediaType::APPLICATION_SVG_XML_TYPE              = MediaType("application","svg+xml");
+const MediaType MediaType::APPLICATION_XHTML_XML_TYPE            = MediaType("application","xhtml+xml");
+const MediaType MediaType::APPLICATION_XML_TYPE                  = MediaType("application","xml");
+const MediaType MediaType::MULTIPART_FORM_DATA_TYPE              = MediaType("multipart","form-data");
+const MediaType MediaType::TEXT_HTML_TYPE                        = MediaType("text","html");
+const MediaType MediaType::TEXT_PLAIN_TYPE                       = MediaType("text","plain");
+const MediaType MediaType::TEXT_XML_TYPE                         = MediaType("text","xml");
+const MediaType MediaType::WILDCARD_TYPE                         = MediaType();
 
 MediaType::MediaType() {
     this->type = MEDIA_TYPE_WILDCARD;
-- 
2.43.0


From 54154112b891fda01d044915de01a99a8acfdb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 131/152] fix: MediaType::isCompatible matches suffix wildcards
 only with the same suffix, in both directions

---
 library/Javax/Ws/Rs/Core/MediaType.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Javax/Ws/Rs/Core/MediaType.cpp b/library/Javax/Ws/Rs/Core/MediaType.cpp
index a8ea03a..ae840d6 100644
--- a/library/Javax/Ws/Rs/Core/MediaType.cpp
+++ b/library/Javax/Ws/Rs/Core/MediaType.cpp
@@ -117,7 +117,11 @@ boolean MediaType::isCompatible(MediaType other) {
         return false;
     }
 
-    if (this->isWildcardType() || other.isWildcardSubtype()) {
+    if (this->isWildcardType() || other.isWildcardType()) {
+        return true;
+    }
+
+    if (this->subtype.equals(MEDIA_TYPE_WILDCARD) || other.getSubtype().equals(MEDIA_TYPE_WILDCARD)) {
         return true;
     }
 
-- 
2.43.0


From d37356e2852541a7ef3db460125061681c4b0686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 132/152] fix: Throwable without a cause has a null cause
 instead of an uninitialised pointer

---
 library/Java/Lang/Throwable/Throwable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Lang/Throwable/Throwable.cpp b/library/Java/Lang/Throwable/Throwable.cpp
index 93b5263..10af6bc 100644
--- a/library/Java/Lang/Throwable/Throwable.cpp
+++ b/library/Java/Lang/Throwable/Throwable.cpp
@@ -31,10 +31,12 @@ using namespace Java::Lang;
 
 Throwable::Throwable() {
 	this->message = "";
+	this->cause = nullptr;
 }
 
 Throwable::Throwable(String message) {
 	this->message = message;
+	this->cause = nullptr;
 }
 
 Throwable::Throwable(String message, Throwable *cause) {
-- 
2.43.0


From de8c715f0824d04acae400c31fb0ceef5269e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 133/152] fix: NumberFormatException is an
 IllegalArgumentException

---
 .../Java/Lang/NumberFormatException/NumberFormatException.cpp | 4 ++--
 .../Java/Lang/NumberFormatException/NumberFormatException.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/NumberFormatException/NumberFormatException.cpp b/library/Java/Lang/NumberFormatException/NumberFormatException.cpp
index e627ef9..38e92d1 100644
--- a/library/Java/Lang/NumberFormatException/NumberFormatException.cpp
+++ b/library/Java/Lang/NumberFormatException/NumberFormatException.cpp
@@ -26,8 +26,8 @@
 
 #include "NumberFormatException.hpp"
 
-NumberFormatException::NumberFormatException() : RuntimeException() {
+NumberFormatException::NumberFormatException() : IllegalArgumentException() {
 }
 
-NumberFormatException::NumberFormatException(String messageDetail) : RuntimeException(messageDetail) {
+NumberFormatException::NumberFormatException(String messageDetail) : IllegalArgumentException(messageDetail) {
 }
diff --git a/library/Java/Lang/NumberFormatException/NumberFormatException.hpp b/library/Java/Lang/NumberFormatException/NumberFormatException.hpp
index 0bbf4bf..1516ac0 100644
--- a/library/Java/Lang/NumberFormatException/NumberFormatException.hpp
+++ b/library/Java/Lang/NumberFormatException/NumberFormatException.hpp
@@ -27,11 +27,11 @@
 #ifndef NATIVE_NUMBERFORMATEXCEPTION_HPP
 #define NATIVE_NUMBERFORMATEXCEPTION_HPP
 
-#include "../RuntimeException/RuntimeException.hpp"
+#include "../IllegalArgumentException/IllegalArgumentException.hpp"
 
 namespace Java {
 		namespace Lang {
-				class NumberFormatException : public RuntimeException {
+				class NumberFormatException : public IllegalArgumentException {
 				public:
 						/**
 						 * Constructs a NumberFormatException with no detail message.
-- 
2.43.0


From 4853767c35522b9716dfdd6bdc199da9d05cf3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 134/152] fix: Application passes exactly the argc arguments it
 was given

---
 library/Java/Lang/Object/Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Object/Object.cpp b/library/Java/Lang/Object/Object.cpp
index c117039..64baa92 100755
--- a/library/Java/Lang/Object/Object.cpp
+++ b/library/Java/Lang/Object/Object.cpp
@@ -46,7 +46,7 @@ int Application(void (*program)(Array <String>), int argc, string *argv) {
 		for (argumentIndex = 0; argumentIndex < argc; argumentIndex++) {
 			args.push(argv[ argumentIndex ]);
 		}
-		program(argv);
+		program(args);
 		return 0;
 	} catch (Exception &e) {
 		System::out::println("Application Exception: " + e.getMessage());
-- 
2.43.0


From 86c0700207b4d57b1a97dd208c96b4a80d61cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 135/152] fix: Date keeps its own calendar fields instead of
 pointing into localtime's shared buffer

---
 library/Java/Util/Date/Date.cpp | 42 +++++++++++++++++----------------
 library/Java/Util/Date/Date.hpp |  4 ++--
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 93b28b2..f598544 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -67,27 +67,27 @@ Date::~Date() {
 }
 
 void Date::setDate(int date) {
-    this->localTimer->tm_mday = date;
+    this->localTimer.tm_mday = date;
     this->updateDateStatus();
 }
 
 void Date::setHours(int hours) {
-    this->localTimer->tm_hour = hours;
+    this->localTimer.tm_hour = hours;
     this->updateDateStatus();
 }
 
 void Date::setMinutes(int minutes) {
-    this->localTimer->tm_min = minutes;
+    this->localTimer.tm_min = minutes;
     this->updateDateStatus();
 }
 
 void Date::setMonth(int month) {
-    this->localTimer->tm_mon = month;
+    this->localTimer.tm_mon = month;
     this->updateDateStatus();
 }
 
 void Date::setSeconds(int seconds) {
-    this->localTimer->tm_sec = seconds;
+    this->localTimer.tm_sec = seconds;
     this->updateDateStatus();
 }
 
@@ -97,36 +97,36 @@ void Date::setTime(long time) {
 
 void Date::setYear(int year) {
     // LocalTimer just keep year since 1900
-    this->localTimer->tm_year = year;
+    this->localTimer.tm_year = year;
     this->updateDateStatus();
 }
 
 int Date::getDate() const {
-    return this->localTimer->tm_mday;
+    return this->localTimer.tm_mday;
 }
 
 int Date::getDay() const {
-    return this->localTimer->tm_wday;
+    return this->localTimer.tm_wday;
 }
 
 int Date::getHours() const {
-    return this->localTimer->tm_hour;
+    return this->localTimer.tm_hour;
 }
 
 int Date::getMinutes() const {
-    return this->localTimer->tm_min;
+    return this->localTimer.tm_min;
 }
 
 int Date::getMonth() const {
-    return this->localTimer->tm_mon;
+    return this->localTimer.tm_mon;
 }
 
 int Date::getSeconds() const {
-    return this->localTimer->tm_sec;
+    return this->localTimer.tm_sec;
 }
 
 int Date::getYear() const {
-    return this->localTimer->tm_year;
+    return this->localTimer.tm_year;
 }
 
 long Date::getTime() const {
@@ -134,7 +134,7 @@ long Date::getTime() const {
 }
 
 int Date::getTimezoneOffset() const {
-    return (int) - (this->localTimer->tm_gmtoff / 60);
+    return (int) - (this->localTimer.tm_gmtoff / 60);
 }
 
 boolean Date::after(Date specifiedDate) const {
@@ -175,7 +175,7 @@ Date Date::clone() {
 
 String Date::toLocaleString() const {
     string pattern = (string) "%b %d, %Y %I:%M:%S %p";
-    return this->timeToString(pattern, this->localTimer);
+    return this->timeToString(pattern, &this->localTimer);
 }
 
 String Date::toGMTString() const {
@@ -487,7 +487,7 @@ String Date::getSequenceChar(const String &inputString, int &index) {
 
 void Date::updateDateStatus() {
     // Update changes
-    this->timer = mktime(this->localTimer);
+    this->timer = mktime(&this->localTimer);
 
     String pattern;
 
@@ -508,7 +508,7 @@ void Date::updateDateStatus() {
 #endif
 
     pattern = (string) "%a %b %d %T %Z %Y";
-    String convertResult = this->timeToString(pattern.toString(), this->localTimer);
+    String convertResult = this->timeToString(pattern.toString(), &this->localTimer);
     this->backUp = strdup(convertResult.toCharPointer());
 }
 
@@ -524,17 +524,19 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_sec = second;
 
     this->timer = mktime(&localTimer);
-    this->localTimer = localtime(&this->timer);
+    tzset();
+    localtime_r(&this->timer, &this->localTimer);
     this->updateDateStatus();
 }
 
 void Date::initializeDate(long timestamp) {
     time_t ts = timestamp;
-    this->localTimer = localtime(&ts);
+    tzset();
+    localtime_r(&ts, &this->localTimer);
     this->updateDateStatus();
 }
 
-String Date::timeToString(String pattern, tm *timeManagement) const {
+String Date::timeToString(String pattern, const tm *timeManagement) const {
     size_t size = 100;
 
     string holdResult = static_cast<string> (calloc(size, sizeof(char)));
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index d79abbe..7ef8e3d 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -41,7 +41,7 @@ namespace Java {
 				{
 				private:
 						long timer;
-						struct tm *localTimer;
+						struct tm localTimer;
 						string backUp = nullptr;
 				private:
 						/**
@@ -81,7 +81,7 @@ namespace Java {
 						 * @param timeManagement
 						 * @return String
 						 */
-						String timeToString(String pattern, tm *timeManagement) const;
+						String timeToString(String pattern, const tm *timeManagement) const;
 						
 						/**
 						 * Get the UTC time
-- 
2.43.0


From b34213b6362a8f375f905ea3214d1989fa25acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 136/152] fix: Date keeps the given local fields in daylight
 saving time and the given instant in repeated hours

---
 library/Java/Util/Date/Date.cpp | 48 ++++++++++++++++++---------------
 library/Java/Util/Date/Date.hpp |  5 ++++
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index f598544..04910c3 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -68,27 +68,27 @@ Date::~Date() {
 
 void Date::setDate(int date) {
     this->localTimer.tm_mday = date;
-    this->updateDateStatus();
+    this->updateFromFields();
 }
 
 void Date::setHours(int hours) {
     this->localTimer.tm_hour = hours;
-    this->updateDateStatus();
+    this->updateFromFields();
 }
 
 void Date::setMinutes(int minutes) {
     this->localTimer.tm_min = minutes;
-    this->updateDateStatus();
+    this->updateFromFields();
 }
 
 void Date::setMonth(int month) {
     this->localTimer.tm_mon = month;
-    this->updateDateStatus();
+    this->updateFromFields();
 }
 
 void Date::setSeconds(int seconds) {
     this->localTimer.tm_sec = seconds;
-    this->updateDateStatus();
+    this->updateFromFields();
 }
 
 void Date::setTime(long time) {
@@ -98,7 +98,7 @@ void Date::setTime(long time) {
 void Date::setYear(int year) {
     // LocalTimer just keep year since 1900
     this->localTimer.tm_year = year;
-    this->updateDateStatus();
+    this->updateFromFields();
 }
 
 int Date::getDate() const {
@@ -485,10 +485,19 @@ String Date::getSequenceChar(const String &inputString, int &index) {
     return sequenceChar;
 }
 
-void Date::updateDateStatus() {
-    // Update changes
+void Date::updateFromFields() {
+    // mktime moves the fields if they are not in the assumed saving state, so repeat with the state it found
+    tm fields = this->localTimer;
     this->timer = mktime(&this->localTimer);
+    if (this->localTimer.tm_isdst != fields.tm_isdst) {
+        fields.tm_isdst = this->localTimer.tm_isdst;
+        this->localTimer = fields;
+        this->timer = mktime(&this->localTimer);
+    }
+    this->updateDateStatus();
+}
 
+void Date::updateDateStatus() {
     String pattern;
 
     if (this->backUp != nullptr) {
@@ -514,25 +523,22 @@ void Date::updateDateStatus() {
 
 void Date::initializeDate(int year, int month, int date,
                           int hour, int minute, int second) {
-    tm localTimer = { 0 };
+    this->localTimer = tm();
 
-    localTimer.tm_year = year;
-    localTimer.tm_mon = month;
-    localTimer.tm_mday = date;
-    localTimer.tm_hour = hour;
-    localTimer.tm_min = minute;
-    localTimer.tm_sec = second;
+    this->localTimer.tm_year = year;
+    this->localTimer.tm_mon = month;
+    this->localTimer.tm_mday = date;
+    this->localTimer.tm_hour = hour;
+    this->localTimer.tm_min = minute;
+    this->localTimer.tm_sec = second;
 
-    this->timer = mktime(&localTimer);
-    tzset();
-    localtime_r(&this->timer, &this->localTimer);
-    this->updateDateStatus();
+    this->updateFromFields();
 }
 
 void Date::initializeDate(long timestamp) {
-    time_t ts = timestamp;
+    this->timer = timestamp;
     tzset();
-    localtime_r(&ts, &this->localTimer);
+    localtime_r(&this->timer, &this->localTimer);
     this->updateDateStatus();
 }
 
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index 7ef8e3d..381e779 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -48,6 +48,11 @@ namespace Java {
 						 * Update Date status
 						 */
 						void updateDateStatus();
+
+						/**
+						 * Computes the instant and all fields from the (possibly changed) local fields
+						 */
+						void updateFromFields();
 						
 						/**
 						 * Allocates a Date object and initializes it so that
-- 
2.43.0


From 21e53cffc07740eef3ecce2a8e010ada96c1aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 137/152] fix: Date keeps the milliseconds of its instant, also
 before the epoch

---
 library/Java/Util/Date/Date.cpp | 25 +++++++++++++++----------
 library/Java/Util/Date/Date.hpp |  1 +
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 04910c3..8abee41 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -51,8 +51,7 @@ Date::Date(int year, int month, int date, int hour, int minute, int second) {
 }
 
 Date::Date(long millisec) {
-    long timer = millisec / 1000;
-    this->initializeDate(timer);
+    this->setTime(millisec);
 }
 
 Date::Date(String inputString) {
@@ -92,7 +91,13 @@ void Date::setSeconds(int seconds) {
 }
 
 void Date::setTime(long time) {
-    this->initializeDate(time / 1000);
+    long seconds = time / 1000;
+    this->millisecond = (int) (time % 1000);
+    if (this->millisecond < 0) {
+        this->millisecond += 1000;
+        seconds -= 1;
+    }
+    this->initializeDate(seconds);
 }
 
 void Date::setYear(int year) {
@@ -130,7 +135,7 @@ int Date::getYear() const {
 }
 
 long Date::getTime() const {
-    return this->timer * 1000;
+    return this->timer * 1000 + this->millisecond;
 }
 
 int Date::getTimezoneOffset() const {
@@ -138,21 +143,19 @@ int Date::getTimezoneOffset() const {
 }
 
 boolean Date::after(Date specifiedDate) const {
-    return this->timer > specifiedDate.timer;
+    return this->getTime() > specifiedDate.getTime();
 }
 
 boolean Date::before(Date specifiedDate) const {
-    return this->timer < specifiedDate.timer;
+    return this->getTime() < specifiedDate.getTime();
 }
 
 int Date::compareTo(const Date &anotherDate) const {
-    long timeOffset = this->timer - anotherDate.timer;
-
-    if (timeOffset < 0) {
+    if (this->before(anotherDate)) {
         return -1;
     }
 
-    if (timeOffset > 0) {
+    if (this->after(anotherDate)) {
         return 1;
     }
 
@@ -564,10 +567,12 @@ boolean Date::equals(Date obj) const {
 }
 
 Date::Date(const Date &anotherDate) {
+    this->millisecond = anotherDate.millisecond;
     this->initializeDate(anotherDate.timer);
 }
 
 Date &Date::operator=(const Date &anotherDate) {
+    this->millisecond = anotherDate.millisecond;
     this->initializeDate(anotherDate.timer);
     return *this;
 }
\ No newline at end of file
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index 381e779..da9534f 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -41,6 +41,7 @@ namespace Java {
 				{
 				private:
 						long timer;
+						int millisecond = 0;
 						struct tm localTimer;
 						string backUp = nullptr;
 				private:
-- 
2.43.0


From 6349c8e81361f064c736574f13b32a9978235728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 138/152] fix: Date::toGMTString reads the instant in GMT in
 every zone and season

---
 library/Java/Util/Date/Date.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 8abee41..6e33d61 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -184,10 +184,10 @@ String Date::toLocaleString() const {
 String Date::toGMTString() const {
     string pattern = (string) "%d %b %Y %T GMT";
 
-    long utcTime = getUTCTime(this->timer);
-    tm *utcTimer = localtime(&utcTime);
+    tm utcTimer = tm();
+    gmtime_r(&this->timer, &utcTimer);
 
-    return this->timeToString(pattern, utcTimer);
+    return this->timeToString(pattern, &utcTimer);
 }
 
 int Date::hashCode() const {
-- 
2.43.0


From b3c2af3a1cc406a6585849f026ad83fa63bdb977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 139/152] fix: Date::UTC takes its fields in UTC and returns
 milliseconds

---
 library/Java/Util/Date/Date.cpp | 18 ++++++++++--------
 library/Java/Util/Date/Date.hpp |  7 -------
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 6e33d61..9e4b595 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -167,8 +167,16 @@ String Date::toString() const{
 }
 
 long Date::UTC(int year, int month, int date, int hour, int minute, int second) {
-    Date tempDate = Date(year, month, date, hour, minute, second);
-    return Date::getUTCTime(tempDate.getTime());
+    tm utcTimer = tm();
+
+    utcTimer.tm_year = year;
+    utcTimer.tm_mon = month;
+    utcTimer.tm_mday = date;
+    utcTimer.tm_hour = hour;
+    utcTimer.tm_min = minute;
+    utcTimer.tm_sec = second;
+
+    return timegm(&utcTimer) * 1000;
 }
 
 Date Date::clone() {
@@ -556,12 +564,6 @@ String Date::timeToString(String pattern, const tm *timeManagement) const {
     return result;
 }
 
-long Date::getUTCTime(long timer) {
-    tm tempTimer = {0};
-    tm *utcTimer = gmtime_r(&timer, &tempTimer);
-    return mktime(utcTimer);
-}
-
 boolean Date::equals(Date obj) const {
     return this->getTime() == obj.getTime();
 }
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index da9534f..48ee2f2 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -89,13 +89,6 @@ namespace Java {
 						 */
 						String timeToString(String pattern, const tm *timeManagement) const;
 						
-						/**
-						 * Get the UTC time
-						 *
-						 * @param timer
-						 * @return long
-						 */
-						static long getUTCTime(long timer);
 						
 						/**
 						 * Get current number from processing String
-- 
2.43.0


From 41090d69cf911a09f59ddf788a1098934a643969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 140/152] fix: Date::parse takes a given zone exactly and local
 fields by the zone rules of that day

---
 library/Java/Util/Date/Date.cpp | 41 ++++++---------------------------
 library/Java/Util/Date/Date.hpp |  6 -----
 2 files changed, 7 insertions(+), 40 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 9e4b595..949719d 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -390,10 +390,11 @@ long Date::parse(String inputString) {
     if (year < 100) {
         auto now = std::chrono::system_clock::now();
         std::time_t now_c = std::chrono::system_clock::to_time_t(now);
-        struct tm *currentTime = std::localtime(&now_c);
+        tm currentTime = tm();
+        localtime_r(&now_c, &currentTime);
 
-        currentTime->tm_year += 1900;
-        int defaultCenturyStart = currentTime->tm_year - 80;
+        currentTime.tm_year += 1900;
+        int defaultCenturyStart = currentTime.tm_year - 80;
         year += (defaultCenturyStart / 100) * 100;
 
         if (year < defaultCenturyStart) {
@@ -414,40 +415,12 @@ long Date::parse(String inputString) {
         hour = 0;
     }
 
-    // Get timestamp
-    tm localTimer = { 0 };
-
-    localTimer.tm_year = year - 1900;
-    localTimer.tm_mon = month;
-    localTimer.tm_mday = dayOfMonth;
-    localTimer.tm_hour = hour;
-    localTimer.tm_min = minute;
-    localTimer.tm_sec = second;
-
-    long result = mktime(&localTimer);
-
-    // Add timeZoneOffset to result
+    // Without a time zone the fields are local ones
     if (timeZoneOffset == -1) {
-        return result * 1000;
+        return Date(year - 1900, month, dayOfMonth, hour, minute, second).getTime();
     }
 
-    long offsetFromUTC = Date::getOffsetFromUTC();
-    result = (result + (timeZoneOffset * 60) - offsetFromUTC) ;
-    return result * 1000;
-}
-
-long Date::getOffsetFromUTC() {
-    long currentTime;
-    struct tm * timeInfo;
-    time(&currentTime);
-    timeInfo = gmtime (&currentTime);
-    time_t utc = mktime(timeInfo);
-    timeInfo = localtime(&currentTime);
-    time_t local = mktime(timeInfo);
-
-    // Get offset in hours from UTC
-    double offsetFromUTC = difftime(utc, local); // HOUR_IN_SECOND;
-    return (long) offsetFromUTC;
+    return Date::UTC(year - 1900, month, dayOfMonth, hour, minute, second) + timeZoneOffset * 60 * 1000L;
 }
 
 int Date::getSequenceNumber(const String &inputString, int &index) {
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index 48ee2f2..a44f40e 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -118,12 +118,6 @@ namespace Java {
 						 */
 						static String removeBracket(String inputString);
 						
-						/**
-						 * Get time offset in second from local time zone to UTC
-						 *
-						 * @return long time offset in seconds
-						 */
-						static long getOffsetFromUTC();
 				
 				public:
 						/**
-- 
2.43.0


From f6ce62e3f0f8e5faa279f4b4126652efaf970882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 141/152] fix: equal Dates have equal hash codes

---
 library/Java/Util/Date/Date.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 949719d..c1b08de 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -199,8 +199,8 @@ String Date::toGMTString() const {
 }
 
 int Date::hashCode() const {
-    // TODO - Not implement yet
-    return Object::hashCode();
+    long time = this->getTime();
+    return (int) (time ^ (time >> 32));
 }
 
 String Date::removeBracket(String inputString) {
-- 
2.43.0


From 66117ccd2736e56d1fe5be97991fda7fb51e02fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 142/152] fix: TimeZone::getTimeZone returns a TimeZone of its
 own instead of one shared by all callers

---
 library/Java/Util/TimeZone/TimeZone.cpp | 4 ++--
 library/Java/Util/TimeZone/TimeZone.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/TimeZone/TimeZone.cpp b/library/Java/Util/TimeZone/TimeZone.cpp
index 6f1ce11..cf4395c 100755
--- a/library/Java/Util/TimeZone/TimeZone.cpp
+++ b/library/Java/Util/TimeZone/TimeZone.cpp
@@ -36,8 +36,8 @@ String TimeZone::getID() {
     return this->id;
 }
 
-TimeZone &TimeZone::getTimeZone(String id) {
-    static TimeZone timeZone;
+TimeZone TimeZone::getTimeZone(String id) {
+    TimeZone timeZone;
     timeZone.setID(id);
     return timeZone;
 }
\ No newline at end of file
diff --git a/library/Java/Util/TimeZone/TimeZone.hpp b/library/Java/Util/TimeZone/TimeZone.hpp
index c919b37..3fd3baa 100755
--- a/library/Java/Util/TimeZone/TimeZone.hpp
+++ b/library/Java/Util/TimeZone/TimeZone.hpp
@@ -41,7 +41,7 @@ namespace Java {
         public:
             void setID(String ID);
             String getID();
-            static TimeZone &getTimeZone(String id);
+            static TimeZone getTimeZone(String id);
         };
     }
 }
-- 
2.43.0


From d6a0530267f3f18fb09935eca8f64e615a692fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 143/152] fix: SimpleDateFormat formats any length and restores
 the zone of the process, without disturbing Dates in other threads

---
 .../SimpleDateFormat/SimpleDateFormat.cpp     | 45 +++++++++++++------
 library/Java/Util/Date/Date.cpp               |  9 ++++
 library/Java/Util/Date/Date.hpp               | 13 ++++++
 3 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 5cd8a26..3eb52c2 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -41,18 +41,35 @@ void SimpleDateFormat::setTimeZone(const TimeZone &timeZone) {
 }
 
 String SimpleDateFormat::format(const Date &date) {
-    String tz = String("TZ=") + this->timeZone.getID();
-    putenv(tz.toCharPointer());
-    std::time_t current_time;
-    std::time(&current_time);
-    struct std::tm *timeinfo = std::gmtime(&current_time);
-    long offset = timeinfo->tm_gmtoff;
-    size_t bufferLength = 80;
-    string buffer = (string) calloc(bufferLength, sizeof(char));
-    time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
-    std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));
-    unsetenv("TZ");
-    String formattedDate = buffer;
-    free(buffer);
+    // The zone of the process is changed for a moment, so nothing else may convert dates meanwhile
+    std::lock_guard<std::recursive_mutex> guard(Date::getZoneMutex());
+    const_string processZone = getenv("TZ");
+    boolean hasProcessZone = processZone != nullptr;
+    std::string savedZone = hasProcessZone ? processZone : "";
+    setenv("TZ", this->timeZone.getID().toCharPointer(), 1);
+    tzset();
+
+    time_t timestamp = date.getTime() / 1000;
+    if (date.getTime() % 1000 < 0) {
+        timestamp -= 1;
+    }
+    tm fields = tm();
+    localtime_r(&timestamp, &fields);
+
+    // The last character only tells an empty result from a buffer that is too small
+    std::string pattern = std::string(this->datePattern.toCharPointer()) + '.';
+    std::vector<char> buffer(128);
+    size_t length;
+    while ((length = std::strftime(buffer.data(), buffer.size(), pattern.c_str(), &fields)) == 0) {
+        buffer.resize(buffer.size() * 2);
+    }
+
+    if (hasProcessZone) {
+        setenv("TZ", savedZone.c_str(), 1);
+    } else {
+        unsetenv("TZ");
+    }
+    tzset();
+    String formattedDate = std::string(buffer.data(), length - 1);
     return formattedDate.trim();
-}
\ No newline at end of file
+}
diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index c1b08de..8d5e4b1 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -391,6 +391,7 @@ long Date::parse(String inputString) {
         auto now = std::chrono::system_clock::now();
         std::time_t now_c = std::chrono::system_clock::to_time_t(now);
         tm currentTime = tm();
+        std::lock_guard<std::recursive_mutex> guard(Date::getZoneMutex());
         localtime_r(&now_c, &currentTime);
 
         currentTime.tm_year += 1900;
@@ -469,7 +470,13 @@ String Date::getSequenceChar(const String &inputString, int &index) {
     return sequenceChar;
 }
 
+std::recursive_mutex &Date::getZoneMutex() {
+    static std::recursive_mutex *zoneMutex = new std::recursive_mutex();
+    return *zoneMutex;
+}
+
 void Date::updateFromFields() {
+    std::lock_guard<std::recursive_mutex> guard(Date::getZoneMutex());
     // mktime moves the fields if they are not in the assumed saving state, so repeat with the state it found
     tm fields = this->localTimer;
     this->timer = mktime(&this->localTimer);
@@ -520,6 +527,7 @@ void Date::initializeDate(int year, int month, int date,
 }
 
 void Date::initializeDate(long timestamp) {
+    std::lock_guard<std::recursive_mutex> guard(Date::getZoneMutex());
     this->timer = timestamp;
     tzset();
     localtime_r(&this->timer, &this->localTimer);
@@ -527,6 +535,7 @@ void Date::initializeDate(long timestamp) {
 }
 
 String Date::timeToString(String pattern, const tm *timeManagement) const {
+    std::lock_guard<std::recursive_mutex> guard(Date::getZoneMutex());
     size_t size = 100;
 
     string holdResult = static_cast<string> (calloc(size, sizeof(char)));
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index a44f40e..617fb1d 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -34,11 +34,24 @@
 using namespace Java::Lang;
 
 namespace Java {
+		namespace Text {
+				class SimpleDateFormat;
+		}
+
 		namespace Util {
 				class Date :
 					public Object,
 					public Comparable<Date>
 				{
+				private:
+						friend class Java::Text::SimpleDateFormat;
+
+						/**
+						 * Guards the time zone of the process, which SimpleDateFormat changes while it formats
+						 *
+						 * @return std::recursive_mutex
+						 */
+						static std::recursive_mutex &getZoneMutex();
 				private:
 						long timer;
 						int millisecond = 0;
-- 
2.43.0


From 59bd906d33323f3fa18e1e994a6de10ea52604cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 144/152] fix: assigning a ConcurrentHashMap replaces its
 mappings instead of copying buckets it has freed

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp     | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 9c0cf8d..a19a8d8 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -87,6 +87,23 @@ namespace Java {
                  */
                 ~ConcurrentHashMap() = default;
 
+                /**
+                 * Replaces the mappings of this map with those of the target
+                 *
+                 * @param target    the map whose mappings
+                 *                  are to be placed in this map
+                 */
+                ConcurrentHashMap<K, V> &operator=(const ConcurrentHashMap<K, V> &target) {
+                    if (this != &target) {
+                        auto const elements = target.snapshot();
+                        clear();
+                        for (auto const &element : elements) {
+                            put(element.first, element.second);
+                        }
+                    }
+                    return *this;
+                }
+
             public:
                 IteratorType begin() {
                     return original.lock_table().begin();
-- 
2.43.0


From 889bd9423451a8f254c1da6c25ca016fea7867b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 145/152] fix: copying a LinkedList whose element copy throws
 frees the nodes already copied

---
 library/Java/Util/LinkedList/LinkedList.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index f6d3681..3b6be43 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -74,13 +74,13 @@ namespace Java {
                      *
                      * @param target
                      */
-                    LinkedList(const std::initializer_list<E> &target) {
+                    LinkedList(const std::initializer_list<E> &target) : LinkedList() {
                         for (const E &item : target) {
                             this->add(item);
                         }
                     }
 
-                    LinkedList(const LinkedList<E> &target) {
+                    LinkedList(const LinkedList<E> &target) : LinkedList() {
                         for (Node<E> *node : target.original) {
                             this->add(node->element);
                         }
-- 
2.43.0


From ed727e760b598d648384088ad0f74cb6a13242bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 146/152] fix: URL::toString returns its text without leaking a
 copy of it

---
 library/Java/Net/URL/URL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Net/URL/URL.cpp b/library/Java/Net/URL/URL.cpp
index d51ffaf..3c2d8b7 100755
--- a/library/Java/Net/URL/URL.cpp
+++ b/library/Java/Net/URL/URL.cpp
@@ -113,6 +113,6 @@ String URL::toString() const {
 	
 	url += query;
 
-	return stringCopy(url.toCharPointer());
+	return url;
 }
 
-- 
2.43.0


From 2a19c841f514ffce272ed5c184c78075fc0ec418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 147/152] fix: String case conversion uses a locale object of
 its own instead of changing the locale of the process

---
 library/Java/Lang/String/String.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index be4ab59..eb42907 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -33,7 +33,6 @@
 using namespace Java::Lang;
 
 std::wstring multiByteStringToWideString(const std::string &input) {
-    setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
         return convertToWstring.from_bytes(input);
@@ -44,7 +43,6 @@ std::wstring multiByteStringToWideString(const std::string &input) {
 }
 
 std::string wideStringToMultiByteString(const std::wstring &input) {
-    setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
         return convertToString.to_bytes(input);
@@ -54,15 +52,31 @@ std::string wideStringToMultiByteString(const std::wstring &input) {
     }
 }
 
+/**
+ * The character classification of the user's locale. It is a locale object of its own, created once:
+ * setlocale() would change the locale of the whole process under the other threads.
+ */
+static locale_t caseConversionLocale() {
+    static const locale_t locale = [] {
+        locale_t userLocale = newlocale(LC_CTYPE_MASK, "", (locale_t) 0);
+        return userLocale != (locale_t) 0 ? userLocale : newlocale(LC_CTYPE_MASK, "C", (locale_t) 0);
+    }();
+    return locale;
+}
+
 std::string toUpper(const std::string &input) {
 	std::wstring wideString = multiByteStringToWideString(input);
-    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towupper);
+    std::transform(wideString.begin(), wideString.end(), wideString.begin(), [](wchar_t character) {
+        return (wchar_t) towupper_l((wint_t) character, caseConversionLocale());
+    });
 	return wideStringToMultiByteString(wideString);
 }
 
 std::string toLower(const std::string &input) {
     std::wstring wideString = multiByteStringToWideString(input);
-    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towlower);
+    std::transform(wideString.begin(), wideString.end(), wideString.begin(), [](wchar_t character) {
+        return (wchar_t) towlower_l((wint_t) character, caseConversionLocale());
+    });
     return wideStringToMultiByteString(wideString);
 }
 
-- 
2.43.0


From 447088ade73213621975556ed8a0755601c3e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 148/152] fix: Object equality is identity, and value classes
 compare their values instead of their hash codes

---
 library/Java/Lang/Boolean/Boolean.cpp | 5 +++++
 library/Java/Lang/Boolean/Boolean.hpp | 2 ++
 library/Java/Lang/Bytes/Bytes.cpp     | 5 +++++
 library/Java/Lang/Bytes/Bytes.hpp     | 2 ++
 library/Java/Lang/Integer/Integer.cpp | 5 +++++
 library/Java/Lang/Integer/Integer.hpp | 2 ++
 library/Java/Lang/Object/Object.hpp   | 5 +----
 library/Java/Util/BitSet/BitSet.hpp   | 4 ++++
 library/Java/Util/Date/Date.cpp       | 5 +++++
 library/Java/Util/Date/Date.hpp       | 2 ++
 library/Java/Util/UUID/UUID.cpp       | 5 +++++
 library/Java/Util/UUID/UUID.hpp       | 2 ++
 12 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Boolean/Boolean.cpp b/library/Java/Lang/Boolean/Boolean.cpp
index c5a3133..e75d581 100644
--- a/library/Java/Lang/Boolean/Boolean.cpp
+++ b/library/Java/Lang/Boolean/Boolean.cpp
@@ -91,6 +91,11 @@ int Boolean::compare(const boolean &target1, const boolean &target2) {
  * @param target
  * @return int
  */
+boolean Boolean::equals(const Object &target) const {
+    const Boolean *other = dynamic_cast<const Boolean *>(&target);
+    return other != nullptr && this->original == other->original;
+}
+
 int Boolean::compareTo(const Boolean &target) const {
 	return Boolean::compare(this->original, target.original);
 }
diff --git a/library/Java/Lang/Boolean/Boolean.hpp b/library/Java/Lang/Boolean/Boolean.hpp
index 5704cd8..3b7e526 100644
--- a/library/Java/Lang/Boolean/Boolean.hpp
+++ b/library/Java/Lang/Boolean/Boolean.hpp
@@ -58,6 +58,8 @@ namespace Java {
 						static int compare(const boolean &target1, const boolean &target2);
 						int compareTo(const Boolean &target) const;
 						static boolean getBoolean(const_string target);
+
+						boolean equals(const Object &target) const override;
 						virtual int hashCode() const;
 						static boolean parseBoolean(const_string target);
 						String toString() const;
diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index 808bd0f..dc04069 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -65,6 +65,11 @@ int Bytes::compare(byte byteA, byte byteB) {
     return byteA - byteB;
 }
 
+boolean Bytes::equals(const Object &target) const {
+    const Bytes *other = dynamic_cast<const Bytes *>(&target);
+    return other != nullptr && this->original == other->original;
+}
+
 int Bytes::compareTo(const Bytes &other) const {
     return this->original - other.original;
 }
diff --git a/library/Java/Lang/Bytes/Bytes.hpp b/library/Java/Lang/Bytes/Bytes.hpp
index d913df0..e75aeb4 100755
--- a/library/Java/Lang/Bytes/Bytes.hpp
+++ b/library/Java/Lang/Bytes/Bytes.hpp
@@ -156,6 +156,8 @@ namespace Java {
             // TODO need instanceof temporary use Byte instead of Object
             boolean equals(Bytes object);
 
+            boolean equals(const Object &target) const override;
+
             /**
              * Returns the value of this Byte as an float.
              *
diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index bcb7f1b..514ffc4 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -243,6 +243,11 @@ int Integer::compare(int inputInt1, int inputInt2) {
 	return 0;
 }
 
+boolean Integer::equals(const Object &target) const {
+    const Integer *other = dynamic_cast<const Integer *>(&target);
+    return other != nullptr && this->original == other->original;
+}
+
 int Integer::compareTo(const Integer &anotherInteger) const {
 	return this->compare(this->original, anotherInteger.intValue());
 }
diff --git a/library/Java/Lang/Integer/Integer.hpp b/library/Java/Lang/Integer/Integer.hpp
index 2836f6d..468c5ed 100755
--- a/library/Java/Lang/Integer/Integer.hpp
+++ b/library/Java/Lang/Integer/Integer.hpp
@@ -349,6 +349,8 @@ namespace Java {
 						 */
 						// TODO need instanceof temporary use Integer instead of Object
 						boolean equals(Integer object);
+
+						boolean equals(const Object &target) const override;
 						
 						/**
 						 * Returns the value of this Integer as
diff --git a/library/Java/Lang/Object/Object.hpp b/library/Java/Lang/Object/Object.hpp
index b000b8c..01f1ea9 100755
--- a/library/Java/Lang/Object/Object.hpp
+++ b/library/Java/Lang/Object/Object.hpp
@@ -166,10 +166,7 @@ namespace Java {
 					     * @see     java.util.HashMap
 					     */
 						virtual boolean equals(const Object &o) const {
-							if (this->hashCode() == o.hashCode()) {
-								return true;
-							}
-							return false;
+							return std::addressof(*this) == std::addressof(o);
 						}
 					
 				protected:
diff --git a/library/Java/Util/BitSet/BitSet.hpp b/library/Java/Util/BitSet/BitSet.hpp
index d5bf326..c766cba 100755
--- a/library/Java/Util/BitSet/BitSet.hpp
+++ b/library/Java/Util/BitSet/BitSet.hpp
@@ -274,6 +274,10 @@ namespace Java {
                 return true;
             }
 
+            boolean equals(const Object &target) const override {
+                return this->equals<Object>(target);
+            }
+
             /**
              * Sets the bit at the specified index to the complement of its current value.
              *
diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 8d5e4b1..f991048 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -150,6 +150,11 @@ boolean Date::before(Date specifiedDate) const {
     return this->getTime() < specifiedDate.getTime();
 }
 
+boolean Date::equals(const Object &target) const {
+    const Date *other = dynamic_cast<const Date *>(&target);
+    return other != nullptr && this->getTime() == other->getTime();
+}
+
 int Date::compareTo(const Date &anotherDate) const {
     if (this->before(anotherDate)) {
         return -1;
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index 617fb1d..a06ce35 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -238,6 +238,8 @@ namespace Java {
 						 */
 						// TODO (anhnt) need instanceof, use Date instead of Object
 						boolean equals(Date obj) const;
+
+						boolean equals(const Object &target) const override;
 						
 						/**
 						 * Get day of month
diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index b8713d8..315676d 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -117,6 +117,11 @@ int UUID::clockSequence() const {
  *  0 : if this object equal both of mostSigBits and leastSigBits
  *  1 : if this object more than target either mostSigBits or leastSigBits
  */
+boolean UUID::equals(const Object &target) const {
+    const UUID *other = dynamic_cast<const UUID *>(&target);
+    return other != nullptr && this->equals(*other);
+}
+
 int UUID::compareTo(UUID target) const {
 	if (this->mostSigBits < target.mostSigBits) {
 		return -1;
diff --git a/library/Java/Util/UUID/UUID.hpp b/library/Java/Util/UUID/UUID.hpp
index 6894931..b469cb5 100755
--- a/library/Java/Util/UUID/UUID.hpp
+++ b/library/Java/Util/UUID/UUID.hpp
@@ -115,6 +115,8 @@ namespace Java {
 						 * false : otherwise
 						 */
 						boolean equals(UUID target) const;
+
+						boolean equals(const Object &target) const override;
 						
 						/**
 						 * Returns the least significant 64 bits of this UUID's 128 bit value.
-- 
2.43.0


From 2696cee0e0a50c02e220081a0d85975b66b14067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 149/152] fix: URL connections start with defined settings and
 HttpURLConnection can be subclassed

---
 .../Java/Net/HttpURLConnection/HttpURLConnection.cpp |  3 +++
 .../Java/Net/HttpURLConnection/HttpURLConnection.hpp |  2 +-
 library/Java/Net/URL/URL.hpp                         | 12 ++++++------
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/library/Java/Net/HttpURLConnection/HttpURLConnection.cpp b/library/Java/Net/HttpURLConnection/HttpURLConnection.cpp
index c168f0c..09d489f 100755
--- a/library/Java/Net/HttpURLConnection/HttpURLConnection.cpp
+++ b/library/Java/Net/HttpURLConnection/HttpURLConnection.cpp
@@ -32,6 +32,9 @@ HttpURLConnection::HttpURLConnection(URL url) {
 	this->url = url;
 }
 
+HttpURLConnection::~HttpURLConnection() {
+}
+
 String HttpURLConnection::getMethod() {
 	return this->method;
 }
diff --git a/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp b/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
index eeaf7dc..c032788 100755
--- a/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
+++ b/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
@@ -214,7 +214,7 @@ namespace Java {
 						static const int HTTP_VERSION = 505;
 				protected:
 					String method = "GET";
-					int responseCode;
+					int responseCode = -1;
 					String responseMessage;
 
 					HttpURLConnection(URL url);
diff --git a/library/Java/Net/URL/URL.hpp b/library/Java/Net/URL/URL.hpp
index 8021364..9877a71 100755
--- a/library/Java/Net/URL/URL.hpp
+++ b/library/Java/Net/URL/URL.hpp
@@ -45,7 +45,7 @@ namespace Java {
 				private:
 						String protocol;
 						String host;
-						int port;
+						int port = -1;
 						String path;
 						String query;
 				public:
@@ -66,16 +66,16 @@ namespace Java {
 				
 				class URLConnection : public Object {
 				private:
-						int connectTimeout;
-						int readTimeout;
+						int connectTimeout = 0;
+						int readTimeout = 0;
 				protected:
 						URL url;
 						boolean doInput = true;
 						boolean doOutput = false;
 						boolean connected = false;
-						long ifModifiedSince;
-						boolean allowUserInteraction;
-						boolean useCaches;
+						long ifModifiedSince = 0;
+						boolean allowUserInteraction = false;
+						boolean useCaches = true;
 				public:
 						URLConnection();
 						URLConnection(URL url);
-- 
2.43.0


From f9ffdf8537ba1d3212a6cbb66aa475802a11f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 150/152] fix: a failure message longer than the buffer of the
 test runner is cut instead of overrunning it

---
 library/Test.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/Test.hpp b/library/Test.hpp
index e42952d..0c30fd8 100755
--- a/library/Test.hpp
+++ b/library/Test.hpp
@@ -523,8 +523,9 @@ inline static void vprint_errormsg(const_string fmt, va_list ap) {
         ctest_errormsg[0] = 0x00;
     } else {
         const size_t size = (size_t) ret;
-        const size_t s = (ctest_errorsize <= size ? size -ctest_errorsize : size);
-        // ctest_errorsize may overflow at this point
+        // a message that does not fit is cut: only what was written, without its end, is consumed
+        const size_t room = (ctest_errorsize > 0 ? ctest_errorsize - 1 : 0);
+        const size_t s = (room < size ? room : size);
         ctest_errorsize -= s;
         ctest_errormsg += s;
     }
-- 
2.43.0


From fad763987bed14e2cf34386f07a8905e69de590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 151/152] fix: give the base classes virtual destructors

Destroying an Integer, String, list or digest through Object, CharSequence,
Comparable, Iterable or Runnable skipped its destructor, so its memory leaked.
---
 library/Java/Lang/CharSequence/CharSequence.hpp | 1 +
 library/Java/Lang/Comparable/Comparable.hpp     | 2 ++
 library/Java/Lang/Iterable/Iterable.hpp         | 2 ++
 library/Java/Lang/Object/Object.hpp             | 2 ++
 library/Java/Lang/Runnable/Runnable.hpp         | 2 ++
 library/Java/Util/Arrays/Arrays.hpp             | 2 +-
 6 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/CharSequence/CharSequence.hpp b/library/Java/Lang/CharSequence/CharSequence.hpp
index c5ec592..83ebacd 100755
--- a/library/Java/Lang/CharSequence/CharSequence.hpp
+++ b/library/Java/Lang/CharSequence/CharSequence.hpp
@@ -33,6 +33,7 @@ namespace Java {
 
         class CharSequence {
         public:
+            virtual ~CharSequence() = default;
 
             virtual String toString() const = 0;
 
diff --git a/library/Java/Lang/Comparable/Comparable.hpp b/library/Java/Lang/Comparable/Comparable.hpp
index 9c754f2..8cd7dd1 100755
--- a/library/Java/Lang/Comparable/Comparable.hpp
+++ b/library/Java/Lang/Comparable/Comparable.hpp
@@ -33,6 +33,8 @@ namespace Java {
 				class Comparable {
 				public:
 						virtual int compareTo(const T &o) const = 0;
+
+						virtual ~Comparable() = default;
 				};
 		}
 }
diff --git a/library/Java/Lang/Iterable/Iterable.hpp b/library/Java/Lang/Iterable/Iterable.hpp
index 9dcfc04..6d6573c 100755
--- a/library/Java/Lang/Iterable/Iterable.hpp
+++ b/library/Java/Lang/Iterable/Iterable.hpp
@@ -37,6 +37,8 @@ namespace Java {
 				class Iterable {
 				public:
 						// virtual Iterator<T> &iterator() const = 0;
+
+						virtual ~Iterable() = default;
 				};
 		}
 }
diff --git a/library/Java/Lang/Object/Object.hpp b/library/Java/Lang/Object/Object.hpp
index 01f1ea9..a469fe7 100755
--- a/library/Java/Lang/Object/Object.hpp
+++ b/library/Java/Lang/Object/Object.hpp
@@ -57,6 +57,8 @@ namespace Java {
 				private:
 						static void registerNatives() {}
 				public:
+						virtual ~Object() = default;
+
 						/**
 						* Returns the runtime class of this {@code Object}. The returned
 						* {@code Class} object is the object that is locked by {@code
diff --git a/library/Java/Lang/Runnable/Runnable.hpp b/library/Java/Lang/Runnable/Runnable.hpp
index 0bb84e9..fd0753b 100755
--- a/library/Java/Lang/Runnable/Runnable.hpp
+++ b/library/Java/Lang/Runnable/Runnable.hpp
@@ -32,6 +32,8 @@ namespace Java {
 				class Runnable {
 				public:
 						virtual void run() = 0;
+
+						virtual ~Runnable() = default;
 				};
 		}
 }
diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 4ee7aa0..b825e8c 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -123,7 +123,7 @@ namespace Java {
         class Arrays : public Object {
         private:
             Arrays() = delete;
-            ~Arrays() = delete;
+            ~Arrays() = default;
 
         public:
             template<typename E>
-- 
2.43.0


From b9ebd1af869eedd641411a24d72f04f1b736ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 152/152] fix: compare the whole content in
 compareToIgnoreCase, not only up to the first NUL

---
 library/Java/Lang/String/String.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index eb42907..6886f16 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -180,7 +180,16 @@ int String::compareTo(const String &anotherString) const {
 }
 
 int String::compareToIgnoreCase(const String &anotherString) const {
-	return strcasecmp(this->original.c_str(), anotherString.original.c_str());
+	const std::size_t commonLength = std::min(this->original.size(), anotherString.original.size());
+
+	for (std::size_t index = 0; index < commonLength; ++index) {
+		const int difference = tolower((byte) this->original[index]) - tolower((byte) anotherString.original[index]);
+		if (difference != 0) {
+			return difference;
+		}
+	}
+
+	return (int) this->original.size() - (int) anotherString.original.size();
 }
 
 String String::concat(const String &target) const {
-- 
2.43.0

