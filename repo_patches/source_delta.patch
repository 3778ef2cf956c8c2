From 52ce148c4d961414685c7efbc5c400d8f5f4ff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 01/74] fix: base64 decoder read before empty input, wrote past
 its buffer on unpadded input and took padding anywhere

---
 core/encoding/base64.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/encoding/base64.cpp b/core/encoding/base64.cpp
index 7b50fad..de27ca9 100644
--- a/core/encoding/base64.cpp
+++ b/core/encoding/base64.cpp
@@ -43,10 +43,17 @@ static const uint8_t base64DecodeTable[] = {
 
 std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 
+	if (!data.size()) return {};
+
+	//	padding can only be in the last two places of a complete block
+	const auto paddBegins = (data.size() % 4) ? std::string::npos : data.find('=', data.size() - 2);
+	if (paddBegins != std::string::npos && data.back() != '=')
+		throw std::runtime_error("Misplaced padding in base64 sequence");
+
 	//	check base64 string validity real quick
 	for (size_t i = 0; i < data.size(); i++) {
 		auto symbol = data[i];
-		if (!isalnum(symbol) && symbol != '+' && symbol != '/' && symbol != '=')
+		if (!isalnum(symbol) && symbol != '+' && symbol != '/' && !(symbol == '=' && i >= paddBegins))
 			throw std::runtime_error("Invalid symbol in base64 sequence at position " + std::to_string(i));
 	}
 
@@ -66,14 +73,13 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 
 	if (incompleteBlockSize > 0) {
 
-		result.resize(result.size() + 1);
+		result.resize(result.size() + (incompleteBlockSize == 3 ? 2 : 1));
 
 		if (incompleteBlockSize == 3) {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
 			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], data[encodedCompleteBlocks + 2]);
 		} else if (incompleteBlockSize == 2) {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
-			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], 0);
 		} else {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], 0);
 		}
-- 
2.43.0


From 9a1e7e82454487cc45276871b65ebf4fbaddf0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 02/74] fix: hex decoder accepted characters that are not hex
 digits

---
 core/encoding/hex.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/encoding/hex.cpp b/core/encoding/hex.cpp
index 800fda2..01b70d7 100644
--- a/core/encoding/hex.cpp
+++ b/core/encoding/hex.cpp
@@ -41,6 +41,8 @@ uint8_t Encoding::hexToByte(HexByte hexbyte) {
 	HexByte temp;
 
 	for (size_t i = 0; i < 2; i++) {
+		if (!isxdigit(static_cast<uint8_t>(hexbyte.string[i])))
+			throw std::runtime_error("Invalid character in hex string");
 		int charcode = hexbyte.string[i] - (hexbyte.string[i] > 0x5a ? 0x50 : 0x30);
 		if (charcode >= (int)sizeof(hex_decode_table) || charcode < 0)
 			throw std::runtime_error("Invalid character in hex string" + std::string(hexbyte.string));
-- 
2.43.0


From 01417e1fd7db56b5c46336f7a35059afc67773a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 03/74] fix: encodeURIComponent left control and non-ASCII
 bytes unescaped

---
 core/encoding/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/encoding/url.cpp b/core/encoding/url.cpp
index 9051e05..445d796 100644
--- a/core/encoding/url.cpp
+++ b/core/encoding/url.cpp
@@ -18,7 +18,7 @@ std::string Encoding::encodeURIComponent(const std::string& input) {
 
 	for (auto symbol : input) {
 
-		if (escapeChars.contains(symbol)) {
+		if (escapeChars.contains(symbol) || symbol < 0x21 || symbol > 0x7e) {
 			result.push_back('%');
 			result.append(byteToHex(symbol).string);
 			continue;
-- 
2.43.0


From 1ff6f48db37a1b7a095db8f7ec2d382ed31ed835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 04/74] fix: trim read outside an empty string, endsWith missed
 repeated suffixes, join dropped separators, replaceAll never ended on an
 empty pattern

---
 core/polyfill/strings.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index a9cd738..4e2dbb5 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -58,7 +58,8 @@ bool Strings::includes(const std::string& str, const std::vector <std::string>&
 }
 
 bool Strings::endsWith(const std::string& str, const std::string& substr) {
-	return str.find(substr) == (str.size() - substr.size());
+	if (substr.size() > str.size()) return false;
+	return str.compare(str.size() - substr.size(), substr.size(), substr) == 0;
 }
 bool Strings::startsWith(const std::string& str, const std::string& substr) {
 	return str.find(substr) == 0;
@@ -66,6 +67,8 @@ bool Strings::startsWith(const std::string& str, const std::string& substr) {
 
 void Strings::trim(std::string& str) {
 
+	if (!str.size()) return;
+
 	//	list of characters to remove
 	static const std::set<char> whitespaceChars = { '\r', '\n', '\t', ' ' };
 
@@ -150,7 +153,7 @@ std::string Strings::join(const std::vector<std::string>& strs, const char* toke
 	std::string result;
 
 	for(auto& str : strs) {
-		if (result.size() > 0) result += token;
+		if (&str != &strs.front()) result += token;
 		result += str;
 	}
 
@@ -170,6 +173,7 @@ std::string Strings::replace(const std::string& base, const std::string& sub, co
 }
 
 void Strings::replaceAll(std::string& base, const std::string& sub, const std::string& replacement) {
+	if (!sub.size()) return;
 	size_t index = base.find(sub);
 	while (index != std::string::npos) {
 		base.replace(index, sub.size(), replacement);
-- 
2.43.0


From 85196b981793a44b8df9b5813e31eb31a48fec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 05/74] fix: template renderer skipped placeholders that follow
 an unmatched opening brace

---
 core/html/renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/html/renderer.cpp b/core/html/renderer.cpp
index 5fe5613..e9989b2 100644
--- a/core/html/renderer.cpp
+++ b/core/html/renderer.cpp
@@ -21,7 +21,7 @@ std::string HTML::renderTemplate(const std::string& templateSource, const Templa
 
 		auto templateVar = getTemplateVariableFromSlice(result, templateOpen + 2, templateClose);
 		if (!templateVar.has_value()) {
-			searchStart = templateClose + 2;
+			searchStart = templateOpen + 1;
 			continue;
 		}
 
-- 
2.43.0


From b8198c9116b28dc380b2ea0f1cc3fac10d27009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 06/74] fix: URLSearchParams lost mixed-case keys, repeated
 values and queries containing a question mark

---
 core/http/urlsearchparams.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/http/urlsearchparams.cpp b/core/http/urlsearchparams.cpp
index 67baeb4..feb8946 100644
--- a/core/http/urlsearchparams.cpp
+++ b/core/http/urlsearchparams.cpp
@@ -5,7 +5,7 @@ using namespace Lambda::HTTP;
 
 URLSearchParams::URLSearchParams(const std::string& queries) {
 
-	auto qmark = queries.find_last_of('?');
+	auto qmark = queries.find_first_of('?');
 	auto entries = Strings::split(qmark != std::string::npos ? queries.substr(qmark + 1) : queries, '&');
 	
 	for (const auto& entry : entries) {
@@ -18,14 +18,16 @@ URLSearchParams::URLSearchParams(const std::string& queries) {
 
 		if (!key.size() || !value.size()) continue;
 
-		this->m_data[key] = { value };
+		this->append(key, value);
 	}
 }
 
 std::string URLSearchParams::stringify() const {
 	auto result = std::string();
 	for (const auto& entry : this->m_data) {
-		result += (result.size() ? "&" : "") + entry.first + "=" + entry.second.at(0);
+		for (const auto& value : entry.second) {
+			result += (result.size() ? "&" : "") + entry.first + "=" + value;
+		}
 	}
 	return result;
 }
-- 
2.43.0


From ec91714875e117aa7e00943d34d3563754393038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 07/74] fix: URL parser rejected a query without a path, lost a
 user name without a password and split IPv6 hosts

---
 core/http/url.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/http/url.cpp b/core/http/url.cpp
index 102c389..951ef40 100644
--- a/core/http/url.cpp
+++ b/core/http/url.cpp
@@ -39,7 +39,7 @@ void URL::parse(const std::string& href) {
 			cursor += 3;
 
 			//	find separator between hostname and stuff and document path and it's stuff
-			docStart = href.find_first_of('/', cursor);
+			docStart = href.find_first_of("/?#", cursor);
 
 			auto addrString = href.substr(cursor, docStart - cursor);
 
@@ -56,6 +56,8 @@ void URL::parse(const std::string& href) {
 				if (credSep != std::string::npos) {
 					this->username = credentails.substr(0, credSep);
 					this->password = credentails.substr(credSep + 1);
+				} else {
+					this->username = credentails;
 				}
 
 				addrString = addrString.substr(cursor + 1);
@@ -64,7 +66,7 @@ void URL::parse(const std::string& href) {
 			this->host = addrString;
 
 			//	get hostname and port
-			cursor = addrString.find(':');
+			cursor = addrString.find(':', addrString.starts_with('[') ? addrString.find(']') : 0);
 			if (cursor != std::string::npos) {
 				this->port = addrString.substr(cursor + 1);
 				this->hostname = addrString.substr(0, cursor);
@@ -97,7 +99,7 @@ void URL::parse(const std::string& href) {
 			urlDocPart = urlDocPart.substr(0, cursor);
 		}
 
-		this->pathname = urlDocPart;
+		this->pathname = urlDocPart.size() ? urlDocPart : "/";
 
 	} catch(const std::exception& e) {
 		throw std::runtime_error("Failed to parse URL: " + std::string(e.what()));
@@ -122,6 +124,8 @@ std::string URL::href() const {
 		//	add http auth
 		if (this->username.size() && this->password.size()) {
 			temp += this->username + ":" + this->password + "@";
+		} else if (this->username.size()) {
+			temp += this->username + "@";
 		}
 
 		//	add host name
-- 
2.43.0


From 4278e2b24d6c7c511d8c18f8c93f559500144abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 08/74] fix: cookies with upper-case names were not found,
 copies lost pending Set-Cookie lines, deletion did not expire the cookie

---
 core/http/cookies.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index e588f68..601ee80 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -19,25 +19,29 @@ Cookies::Cookies(const std::string& cookiestring) {
 
 		if (!key.size() || !value.size()) continue;
 
-		this->m_data[key] = { value };
+		this->m_data[Strings::toLowerCase(static_cast<const std::string>(key))] = { value };
 	}
 }
 
 Cookies::Cookies(const Cookies& other) {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 }
 
 Cookies::Cookies(Cookies&& other) {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 }
 
 Cookies& Cookies::operator=(const Cookies& other) noexcept {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 	return *this;
 }
 
 Cookies& Cookies::operator=(Cookies&& other) noexcept {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 	return *this;
 }
 
@@ -69,7 +73,7 @@ void Cookies::del(const std::string& key) {
 	const auto keyNormalized = Strings::toLowerCase(key);
 	if (!this->m_data.contains(keyNormalized)) return;
 	this->m_data.erase(keyNormalized);
-	this->m_set_queue[keyNormalized] = { "", { "expires", "Thu, Jan 01 1970 00:00:00 UTC" } };
+	this->m_set_queue[keyNormalized] = { "", { CookieParams({ "expires", "Thu, 01 Jan 1970 00:00:00 GMT" }) } };
 }
 
 std::vector<KVpair> Cookies::entries() const {
-- 
2.43.0


From 3109549af9ea74270245922f9b26ab9af588ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 09/74] fix: basic credentials with colons or empty parts were
 lost, a malformed value failed the request

---
 core/http/auth.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/core/http/auth.cpp b/core/http/auth.cpp
index fe1e612..cca853f 100644
--- a/core/http/auth.cpp
+++ b/core/http/auth.cpp
@@ -2,34 +2,43 @@
 #include "../polyfill/polyfill.hpp"
 #include "../encoding/encoding.hpp"
 
+#include <stdexcept>
+
 using namespace Lambda;
 using namespace Lambda::HTTP;
 using namespace Lambda::HTTP::Auth;
 
 std::optional<BasicCredentials> Auth::parseBasicAuth(const std::string& header) {
 
-	if (!Strings::includes(Strings::toLowerCase(header), "basic")) {
+	if (!Strings::startsWith(Strings::toLowerCase(header), "basic ")) {
 		return std::nullopt;
 	}
 
-	const auto authStringStart = header.find_last_of(' ');
+	const auto authStringStart = header.find(' ');
 	if (authStringStart == std::string::npos) {
 		return std::nullopt;
 	}
 
-	const auto authString = header.substr(authStringStart + 1);
+	const auto authString = Strings::trim(header.substr(authStringStart + 1));
 	if (!authString.size()) {
 		return std::nullopt;
 	}
 
-	const auto authStringDecoded = Encoding::fromBase64(authString);
-	const auto authComponents = Strings::split(std::string(authStringDecoded.begin(), authStringDecoded.end()), ":");
-	if (authComponents.size() < 2) {
+	std::vector<uint8_t> authStringDecoded;
+	try {
+		authStringDecoded = Encoding::fromBase64(authString);
+	} catch (const std::exception&) {
+		return std::nullopt;
+	}
+
+	const auto authComponents = std::string(authStringDecoded.begin(), authStringDecoded.end());
+	const auto separatorIdx = authComponents.find(':');
+	if (separatorIdx == std::string::npos) {
 		return std::nullopt;
 	}
 
 	return BasicCredentials {
-		authComponents[0],
-		authComponents[1]
+		authComponents.substr(0, separatorIdx),
+		authComponents.substr(separatorIdx + 1)
 	};
 }
-- 
2.43.0


From e08d944af96a2da1970981afff3e51f58d99b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 10/74] fix: mime type of a file extension depended on its
 letter case

---
 core/polyfill/mimetype.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/polyfill/mimetype.cpp b/core/polyfill/mimetype.cpp
index 06d855c..2c1e58e 100644
--- a/core/polyfill/mimetype.cpp
+++ b/core/polyfill/mimetype.cpp
@@ -1186,6 +1186,7 @@ std::string Content::getExtMimetype(const std::string& ext) {
 
 	auto dotidx = ext.find_last_of('.');
 	auto fileExtNormalized = (dotidx == std::string::npos) ? ext : ext.substr(dotidx + 1);
+	Strings::toLowerCase(fileExtNormalized);
 
 	if (!mimetypeMap.contains(fileExtNormalized))
 		return "application/octet-stream";
-- 
2.43.0


From 21a495bc0856be3d405085277a785d51080e10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 11/74] fix: JSON strings, keys and floats were not serialised
 as standard JSON; assigning a JSON value leaked the old one

---
 core/json/property.cpp  | 16 +++++++++-
 core/json/stringify.cpp | 71 +++++++++++++++++++++++++++--------------
 2 files changed, 62 insertions(+), 25 deletions(-)

diff --git a/core/json/property.cpp b/core/json/property.cpp
index ea9bcce..60fd653 100644
--- a/core/json/property.cpp
+++ b/core/json/property.cpp
@@ -1,6 +1,8 @@
 #include "./json.hpp"
 
+#include <limits>
 #include <stdexcept>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
@@ -44,6 +46,11 @@ Property::Property(int32_t value) {
 }
 
 Property::Property(uint32_t value) {
+	if (value > static_cast<uint32_t>(std::numeric_limits<int32_t>::max())) {
+		this->internalType = JSTypes::Float;
+		this->internalDataFloat = new long double(value);
+		return;
+	}
 	this->internalType = JSTypes::Integer;
 	this->internalDataInt = new int32_t(value);
 }
@@ -92,7 +99,14 @@ Property::Property(Property&& other) {
 }
 
 Property Property::operator=(const Property& other) {
-	this->clone(other);
+	auto temp = Property(other);
+	std::swap(this->internalType, temp.internalType);
+	std::swap(this->internalDataBool, temp.internalDataBool);
+	std::swap(this->internalDataInt, temp.internalDataInt);
+	std::swap(this->internalDataFloat, temp.internalDataFloat);
+	std::swap(this->internalDataStr, temp.internalDataStr);
+	std::swap(this->internalDataArray, temp.internalDataArray);
+	std::swap(this->internalDataMap, temp.internalDataMap);
 	return *this;
 }
 
diff --git a/core/json/stringify.cpp b/core/json/stringify.cpp
index 3049991..b164e13 100644
--- a/core/json/stringify.cpp
+++ b/core/json/stringify.cpp
@@ -1,5 +1,7 @@
 #include "./json.hpp"
 
+#include <charconv>
+#include <cstdio>
 #include <map>
 #include <stdexcept>
 
@@ -7,12 +9,50 @@ using namespace Lambda;
 using namespace Lambda::JSON;
 
 static const std::map<char, std::string> stringEscapeTable = {
-	{ '\n', "\\\\n" },
-	{ '\r', "\\\\r" },
-	{ '\t', "\\\\t" },
+	{ '\n', "\\n" },
+	{ '\r', "\\r" },
+	{ '\t', "\\t" },
+	{ '\\', "\\\\" },
 	{ '\"', "\\\"" }
 };
 
+static std::string stringifyText(const std::string& textcontent) {
+
+	std::string temp;
+	temp.reserve(textcontent.size());
+
+	for (auto symbol : textcontent) {
+
+		auto escaped = stringEscapeTable.find(symbol);
+		if (escaped != stringEscapeTable.end()) {
+			temp.append(escaped->second);
+			continue;
+		}
+
+		if (symbol >= 0 && symbol < 0x20) {
+			char hexcode[8];
+			snprintf(hexcode, sizeof(hexcode), "\\u%04x", symbol);
+			temp.append(hexcode);
+			continue;
+		}
+
+		temp.push_back(symbol);
+	}
+
+	return '\"' + temp + '\"';
+}
+
+static std::string stringifyFloat(long double value) {
+
+	//	the shortest notation that is read back as the same value
+	char buffer[64];
+	const auto result = std::to_chars(buffer, buffer + sizeof(buffer), value);
+	auto text = std::string(buffer, result.ptr);
+
+	//	keep it recognizable as a floating point number
+	return text.find_first_of(".en") == std::string::npos ? text + ".0" : text;
+}
+
 std::string JSON::stringify(const Property& data) {
 
 	switch (data.type()) {
@@ -21,30 +61,13 @@ std::string JSON::stringify(const Property& data) {
 			return std::to_string(data.asInt());
 
 		case JSTypes::Float:
-			return std::to_string(data.asFloat());
+			return stringifyFloat(data.asFloat());
 
 		case JSTypes::Boolean:
 			return data.asBool() ? "true" : "false";
 
-		case JSTypes::String: {
-
-			auto textcontent = data.asString();
-			std::string temp;
-			temp.reserve(textcontent.size());
-
-			for (auto symbol : textcontent) {
-
-				auto escaped = stringEscapeTable.find(symbol);
-				if (escaped != stringEscapeTable.end()) {
-					temp.append(escaped->second);
-					continue;
-				}
-
-				temp.push_back(symbol);
-			}
-
-			return '\"' + temp + '\"';
-		}
+		case JSTypes::String:
+			return stringifyText(data.asString());
 
 		case JSTypes::Null:
 			return "null";
@@ -67,7 +90,7 @@ std::string JSON::stringify(const Property& data) {
 
 			for (const auto& entry : data.asMap()) {
 				if (temp.size()) temp.push_back(',');
-				temp.append('\"' + entry.first + "\":");
+				temp.append(stringifyText(entry.first) + ':');
 				temp.append(stringify(entry.second));
 			}
 
-- 
2.43.0


From 70b91563b45f161fa90d6bfbc1f74c81412aa0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 12/74] fix: JSON parser mishandled negative numbers,
 exponents, empty containers, escapes and structural characters in strings,
 and deep nesting

---
 core/json/parse.cpp | 133 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 106 insertions(+), 27 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 52593b5..0d29d93 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -1,20 +1,105 @@
 #include "./json.hpp"
 #include "../../core/polyfill/polyfill.hpp"
 
-#include <array>
 #include <stdexcept>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
 
-static const std::array<std::pair<std::string, std::string>, 4> stringUnescapeTable = {
-	std::make_pair("\\\\n", "\n"),
-	std::make_pair("\\\\r", "\r"),
-	std::make_pair("\\\\t", "\t"),
-	std::make_pair("\\\"", "\"")
-};
+static const size_t maxNestingDepth = 512;
+
+static bool isDelimiter(const std::string& text, size_t pos) {
+	pos = text.find_first_not_of(" \t\r\n", pos);
+	return pos == std::string::npos || text[pos] == ',' || text[pos] == ':' || text[pos] == ']' || text[pos] == '}';
+}
+
+//	finds the quote that closes a string literal
+static size_t findStringEnd(const std::string& text, size_t openingQuote) {
+
+	for (size_t i = openingQuote + 1; i < text.size(); i++) {
+
+		if (text[i] == '\"') return i;
+		if (text[i] != '\\') continue;
+
+		i++;
+
+		//	be nice to double-escaped quotes that can't be closing ones
+		if (text.compare(i, 2, "\\\"") == 0 && !isDelimiter(text, i + 2)) i++;
+	}
+
+	throw std::runtime_error("Invalid JSON: unterminated string");
+}
+
+static uint32_t parseUnicodeEscape(const std::string& text, size_t pos) {
+	if (pos + 4 > text.size() || text.find_first_not_of("0123456789abcdefABCDEF", pos) < pos + 4)
+		throw std::runtime_error("Invalid JSON: invalid unicode escape sequence");
+	return std::stoul(text.substr(pos, 4), nullptr, 16);
+}
+
+static std::string unescapeText(const std::string& text) {
+
+	static const std::string escapeCodes = "\"\\/bfnrt";
+	static const std::string escapeSymbols = "\"\\/\b\f\n\r\t";
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (size_t i = 0; i < text.size(); i++) {
+
+		if (text[i] != '\\' || i + 1 >= text.size()) {
+			result.push_back(text[i]);
+			continue;
+		}
+
+		i++;
+
+		if (text[i] != 'u') {
+			const auto codeIdx = escapeCodes.find(text[i]);
+			if (codeIdx == std::string::npos) result.push_back('\\');
+			result.push_back(codeIdx == std::string::npos ? text[i] : escapeSymbols[codeIdx]);
+			continue;
+		}
+
+		auto codepoint = parseUnicodeEscape(text, i + 1);
+		i += 4;
+
+		if ((codepoint & 0xFC00) == 0xD800 && text.compare(i + 1, 2, "\\u") == 0) {
+			const auto lowSurrogate = parseUnicodeEscape(text, i + 3);
+			if ((lowSurrogate & 0xFC00) == 0xDC00) {
+				codepoint = 0x10000 + ((codepoint & 0x3FF) << 10) + (lowSurrogate & 0x3FF);
+				i += 6;
+			}
+		}
+
+		if (codepoint < 0x80) {
+			result.push_back(codepoint);
+		} else if (codepoint < 0x800) {
+			result.push_back(0xC0 | (codepoint >> 6));
+			result.push_back(0x80 | (codepoint & 0x3F));
+		} else if (codepoint < 0x10000) {
+			result.push_back(0xE0 | (codepoint >> 12));
+			result.push_back(0x80 | ((codepoint >> 6) & 0x3F));
+			result.push_back(0x80 | (codepoint & 0x3F));
+		} else {
+			result.push_back(0xF0 | (codepoint >> 18));
+			result.push_back(0x80 | ((codepoint >> 12) & 0x3F));
+			result.push_back(0x80 | ((codepoint >> 6) & 0x3F));
+			result.push_back(0x80 | (codepoint & 0x3F));
+		}
+	}
+
+	return result;
+}
+
+static Property parseValue(const std::string& text, size_t depth);
 
 Property JSON::parse(const std::string& text) {
+	return parseValue(text, 0);
+}
+
+static Property parseValue(const std::string& text, size_t depth) {
+
+	if (depth > maxNestingDepth) throw std::runtime_error("Invalid JSON: nesting is too deep");
 
 	auto objectText = Strings::trim(text);
 	if (!objectText.size()) throw std::runtime_error("Invalid JSON: empty text");
@@ -25,20 +110,13 @@ Property JSON::parse(const std::string& text) {
 		
 		if (objectText.starts_with('\"')) {
 
-			auto textcontent = objectText.substr(1, objectText.size() - 2);
-
-			auto illegalQuotePos = textcontent.find('\"');
-
-			if (illegalQuotePos != std::string::npos && (illegalQuotePos == 0 || textcontent.at(illegalQuotePos - 1) != '\\'))
+			if (findStringEnd(objectText, 0) != objectText.size() - 1)
 				throw std::runtime_error("Invalid JSON: unescaped double quote");
 
-			for (const auto& symbol : stringUnescapeTable)
-				Strings::replaceAll(textcontent, symbol.first, symbol.second);
+			return Property(unescapeText(objectText.substr(1, objectText.size() - 2)));
 
-			return Property(textcontent);
-
-		} else if (isdigit(objectText.at(0))) {
-			return objectText.find('.') == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
+		} else if (isdigit(objectText.at(0)) || objectText.at(0) == '-') {
+			return objectText.find_first_of(".eE") == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
 		} else if ((objectText.starts_with('t') || objectText.starts_with('f')) && objectText.ends_with('e')) {
 			return Property(objectText == "true");
 		} else {
@@ -46,12 +124,13 @@ Property JSON::parse(const std::string& text) {
 		}
 	}
 
+	if (!objectText.ends_with(isArray ? ']' : '}')) throw std::runtime_error("Invalid JSON: unterminated object or array");
+
 	std::vector<std::string> entries;
 
 	//	split this shit into segments between commas
 	size_t ptnss_object = 0;
 	size_t ptnss_array = 0;
-	bool ptnss_string = 0;
 
 	size_t segmentStart = 1;
 
@@ -71,18 +150,19 @@ Property JSON::parse(const std::string& text) {
 				ptnss_array--;
 				break;
 			case '\"':
-				ptnss_string = !ptnss_string;
+				i = findStringEnd(objectText, i);
 				break;
 			default: break;
 		}
 
-		if (!ptnss_object && !ptnss_array && !ptnss_string && objectText[i] == ',') {
+		if (!ptnss_object && !ptnss_array && objectText[i] == ',') {
 			entries.push_back(objectText.substr(segmentStart, i - segmentStart));
 			segmentStart = i + 1;
 		}
 	}
 
 	entries.push_back(objectText.substr(segmentStart, objectText.size() - segmentStart - 1));
+	if (entries.size() == 1 && !Strings::trim(static_cast<const std::string>(entries.front())).size()) entries.clear();
 
 	if (isArray) {
 
@@ -91,7 +171,7 @@ Property JSON::parse(const std::string& text) {
 		for (const auto& entry : entries) {
 			auto entryTrimmed = Strings::trim(entry);
 			if (!entryTrimmed.size()) throw std::runtime_error("Invalid JSON: trailing comma has been found");
-			temp.push_back(parse(entryTrimmed));
+			temp.push_back(parseValue(entryTrimmed, depth + 1));
 		}
 
 		return Property(temp);
@@ -106,12 +186,11 @@ Property JSON::parse(const std::string& text) {
 			if (!entryTrimmed.size()) throw std::runtime_error("Invalid JSON: trailing comma has been found");
 
 			auto keyEnded = std::string::npos;
-			bool insideString = false;
 
 			for (size_t i = 0; i < entryTrimmed.size(); i++) {
 				if (entryTrimmed[i] == '\"') {
-					insideString = !insideString;
-				} else if (!insideString && entryTrimmed[i] == ':') {
+					i = findStringEnd(entryTrimmed, i);
+				} else if (entryTrimmed[i] == ':') {
 					keyEnded = i;
 					break;
 				}
@@ -121,9 +200,9 @@ Property JSON::parse(const std::string& text) {
 
 			auto key = Strings::trim(entryTrimmed.substr(0, keyEnded));
 			auto value = Strings::trim(entryTrimmed.substr(keyEnded + 1));
-			auto useKey = key.starts_with('\"') ? key.substr(1, key.size() - 2) : key;
+			auto useKey = key.starts_with('\"') ? unescapeText(key.substr(1, findStringEnd(key, 0) - 1)) : key;
 
-			temp[useKey] = parse(value);
+			temp[useKey] = parseValue(value, depth + 1);
 		}
 
 		return Property(temp);
-- 
2.43.0


From 91d9f348337e1804ae7d509f7a0fe156f04b8357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 13/74] fix: one-shot decompression failed when output exactly
 filled a chunk and ignored data behind the stream

---
 core/compression/brotli.cpp       | 4 +++-
 core/compression/zlib_oneshot.cpp | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/compression/brotli.cpp b/core/compression/brotli.cpp
index 83b9ead..73a3946 100644
--- a/core/compression/brotli.cpp
+++ b/core/compression/brotli.cpp
@@ -152,10 +152,12 @@ std::vector<uint8_t> Compress::brotliDecompressBuffer(const std::vector<uint8_t>
 					decompressed.resize(cursor_out - available_out);
 					decompressed.shrink_to_fit();
 
+					const bool hasUnused = available_in > 0 || cursor_in < input.size();
+
 					available_in = 0;
 					available_out = 0;
 
-					if (cursor_in < input.size()) {
+					if (hasUnused) {
 						throw std::runtime_error("Unused data after brotli stream");
 					}
 
diff --git a/core/compression/zlib_oneshot.cpp b/core/compression/zlib_oneshot.cpp
index 5d6e453..fe5860c 100644
--- a/core/compression/zlib_oneshot.cpp
+++ b/core/compression/zlib_oneshot.cpp
@@ -77,6 +77,8 @@ std::vector<uint8_t> Compress::zlibCompressBuffer(const std::vector<uint8_t>& in
 				zlib.stream.next_out = compressed.data() + cursor_out;
 
 				opres = deflate(&zlib.stream, eob ? Z_FINISH : Z_NO_FLUSH);
+				//	not an error: there was nothing left to do because the previous output chunk got filled up exactly
+				if (opres == Z_BUF_ERROR) break;
 				if (opres < 0) throw std::runtime_error("deflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
@@ -126,15 +128,18 @@ std::vector<uint8_t> Compress::zlibDecompressBuffer(const std::vector<uint8_t>&
 				zlib.stream.next_out = decompressed.data() + cursor_out;
 
 				opres = inflate(&zlib.stream, Z_NO_FLUSH);
+				//	not an error: the previous output chunk got filled up exactly and there is no more input in this one
+				if (opres == Z_BUF_ERROR) break;
 				if (opres < Z_OK || opres > Z_STREAM_END) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
 
-			} while (zlib.stream.avail_out == 0);
+			} while (zlib.stream.avail_out == 0 && opres != Z_STREAM_END);
 
 		} while (!eob && opres != Z_STREAM_END);
 
 		if (opres != Z_STREAM_END) throw std::runtime_error("inflate stream failed to properly finish");
+		if (!eob || zlib.stream.avail_in > 0) throw std::runtime_error("unused data after the end of the stream");
 
 		decompressed.resize(cursor_out);
 		decompressed.shrink_to_fit();
-- 
2.43.0


From 51942e903d84aa6aee34de3be7e55d07e9322f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 14/74] fix: streaming gzip leaked its zlib state and failed
 when output exactly filled a chunk or the stream was empty

---
 core/compression/zlib_stream_compress.cpp   | 17 ++++++++++-------
 core/compression/zlib_stream_decompress.cpp | 10 ++++++----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index c05e567..cd1f510 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -4,6 +4,7 @@
 #include <zlib.h>
 #include <stdexcept>
 #include <array>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::Compress;
@@ -15,9 +16,8 @@ GzipStreamCompressor::GzipStreamCompressor(GzipStreamCompressor&& other) {
 }
 
 GzipStreamCompressor& GzipStreamCompressor::operator=(GzipStreamCompressor&& other) {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
@@ -31,13 +31,14 @@ GzipStreamCompressor::GzipStreamCompressor(Quality quality) {
 	auto initResult = deflateInit2(reinterpret_cast<z_stream*>(this->m_stream), qualityAsInt, Z_DEFLATED, winbitsAsInt, 8, Z_DEFAULT_STRATEGY);
 	
 	if (initResult != Z_OK) {
+		delete reinterpret_cast<z_stream*>(this->m_stream);
 		throw std::runtime_error("Could not initialize deflate (zlib error code " + std::to_string(initResult) + ')');
 	}
 }
 
 GzipStreamCompressor::~GzipStreamCompressor() {
 	if (this->m_stream == nullptr) return;
-	(void)inflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
+	(void)deflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
 	delete reinterpret_cast<z_stream*>(this->m_stream);
 }
 
@@ -70,7 +71,8 @@ std::vector<uint8_t> GzipStreamCompressor::nextChunk(std::vector<uint8_t>& next,
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
+			//	not an error: there's just no more input to process or output to write
+			case Z_BUF_ERROR: break;
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
@@ -94,7 +96,7 @@ std::vector<uint8_t> GzipStreamCompressor::nextChunk(std::vector<uint8_t>& next)
 
 std::vector<uint8_t> GzipStreamCompressor::end() {
 
-	if (this->m_stage != Stage::Progress) {
+	if (this->m_stage == Stage::Ended) {
 		throw std::runtime_error("Cannot end a stream that has been already ended");
 	}
 
@@ -120,7 +122,8 @@ std::vector<uint8_t> GzipStreamCompressor::end() {
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
+			//	not an error: there's just no more input to process or output to write
+			case Z_BUF_ERROR: break;
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 			default: break;
 		}
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index f3ba8c8..edc3b46 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -4,6 +4,7 @@
 #include <zlib.h>
 #include <stdexcept>
 #include <array>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::Compress;
@@ -15,9 +16,8 @@ GzipStreamDecompressor::GzipStreamDecompressor(GzipStreamDecompressor&& other) {
 }
 
 GzipStreamDecompressor& GzipStreamDecompressor::operator=(GzipStreamDecompressor&& other) noexcept {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
@@ -29,6 +29,7 @@ GzipStreamDecompressor::GzipStreamDecompressor() {
 	auto initResult = inflateInit2(reinterpret_cast<z_stream*>(this->m_stream), 32);
 	
 	if (initResult != Z_OK) {
+		delete reinterpret_cast<z_stream*>(this->m_stream);
 		throw std::runtime_error("Could not initialize deflate (zlib error code " + std::to_string(initResult) + ')');
 	}
 }
@@ -68,7 +69,8 @@ std::vector<uint8_t> GzipStreamDecompressor::nextChunk(std::vector<uint8_t>& nex
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
+			//	not an error: there's just no more input to process or output to write
+			case Z_BUF_ERROR: break;
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
-- 
2.43.0


From 9113b63ee6cc1fa36fbca9fc2d54a83ff52de8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 15/74] fix: partial or interrupted socket sends and receives
 failed the connection, a vanished peer raised SIGPIPE

---
 core/network/sysnetw.hpp        |  1 +
 core/network/tcp/connection.cpp | 31 +++++++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/core/network/sysnetw.hpp b/core/network/sysnetw.hpp
index 00e1a83..e05c43a 100644
--- a/core/network/sysnetw.hpp
+++ b/core/network/sysnetw.hpp
@@ -16,6 +16,7 @@
 		#include <ws2tcpip.h>
 		#include <stdexcept>
 
+		#define MSG_NOSIGNAL (0)
 		#define GetOSErrorCode() (static_cast<int32_t>(GetLastError()))
 
 		inline bool wsaWakeUp() {
diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 16e45de..91eb682 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -22,6 +22,12 @@ static const std::set<int> disconnectedCodes = {
 	#endif
 };
 
+static const std::set<int> interruptedCodes = {
+	#ifndef _WIN32
+		EINTR
+	#endif
+};
+
 Connection::Connection(
 	SockHandle handleInit,
 	const ConnectionInfo& infoInit
@@ -74,10 +80,24 @@ void Connection::write(const std::vector<uint8_t>& data) {
 
 	std::lock_guard<std::mutex> lock(this->m_write_mtx);
 
-	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), 0);
+	size_t bytesDone = 0;
+
+	while (bytesDone < data.size()) {
+
+		const auto bytesSent = send(this->hSocket, (const char*)data.data() + bytesDone, data.size() - bytesDone, MSG_NOSIGNAL);
+
+		if (bytesSent > 0) {
+			bytesDone += static_cast<size_t>(bytesSent);
+			continue;
+		}
+
+		const auto osError = GetOSErrorCode();
+		if (bytesSent < 0 && interruptedCodes.contains(osError)) continue;
 
-	if (static_cast<size_t>(bytesSent) != data.size())
-		throw NetworkError("Network error while writing data");
+		//	a part of the data may be already out, so nothing sensible can be sent after it
+		this->end();
+		throw NetworkError("Network error while writing data", osError);
+	}
 }
 
 std::vector<uint8_t> Connection::read() {
@@ -93,7 +113,10 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
 	auto chunk = std::vector<uint8_t>(expectedSize);
 
-	const auto bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	auto bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	while (bytesReceived < 0 && interruptedCodes.contains(GetOSErrorCode())) {
+		bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	}
 
 	if (bytesReceived == 0) {
 
-- 
2.43.0


From 178aa970f57b54457300ae97cf081a5048aef8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 16/74] fix: socket timeouts dropped their sub-second part

---
 core/network/tcp/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 91eb682..bfbf395 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -163,7 +163,7 @@ void Connection::setTimeouts(uint32_t valueMs, SetTimeoutsDirection direction) {
 	#else
 		timeval timeoutValue;
 		timeoutValue.tv_sec = valueMs / 1000;
-		timeoutValue.tv_usec = 0;
+		timeoutValue.tv_usec = (valueMs % 1000) * 1000;
 	#endif
 
 	const auto timeouValuePtr = reinterpret_cast<const char*>(&timeoutValue);
-- 
2.43.0


From 291121c280b7f916862429dd19f7dc14fa79ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 17/74] fix: closing a connection or listener from another
 thread could close its descriptor twice or while in use; moves lost flags and
 leaked the old socket

---
 core/network/tcp/connection.cpp | 52 +++++++++++++++++++--------------
 core/network/tcp/connection.hpp |  3 +-
 core/network/tcp/listener.cpp   | 31 +++++++++++---------
 core/network/tcp/listener.hpp   |  5 +++-
 4 files changed, 54 insertions(+), 37 deletions(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index bfbf395..62f535f 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -34,34 +34,36 @@ Connection::Connection(
 ) : hSocket(handleInit), m_info(infoInit) {}
 
 Connection& Connection::operator= (Connection&& other) noexcept {
-	this->hSocket = other.hSocket;
+	if (this == &other) return *this;
+	this->end();
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->m_info = other.m_info;
-	other.hSocket = INVALID_SOCKET;
+	this->flags = other.flags;
 	return *this;
 }
 
 Connection::Connection(Connection&& other) noexcept {
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->m_info = other.m_info;
-	other.hSocket = INVALID_SOCKET;
+	this->flags = other.flags;
 }
 
 Connection::~Connection() {
-	if (this->hSocket == INVALID_SOCKET) return;
-	shutdown(this->hSocket, SD_BOTH);
-	closesocket(this->hSocket);
+	this->end();
 }
 
 void Connection::end() noexcept {
 
-	if (this->hSocket == INVALID_SOCKET) return;
-
 	//	swapping handle to a temp variable so that
 	//	no race condition can occur further down the chain
-	const auto tempHandle = this->hSocket;
-	this->hSocket = INVALID_SOCKET;
+	const auto tempHandle = this->hSocket.exchange(INVALID_SOCKET);
+	if (tempHandle == INVALID_SOCKET) return;
 
+	//	make any blocked read or write return
 	shutdown(tempHandle, SD_BOTH);
+
+	//	and only release the descriptor once nobody is using it
+	std::scoped_lock lock(this->m_read_mtx, this->m_write_mtx);
 	closesocket(tempHandle);
 }
 
@@ -75,16 +77,17 @@ bool Connection::isOpen() const noexcept {
 
 void Connection::write(const std::vector<uint8_t>& data) {
 
-	if (this->hSocket == INVALID_SOCKET)
-		throw Lambda::Error("Cann't write to a closed connection");
+	std::unique_lock<std::mutex> lock(this->m_write_mtx);
 
-	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET)
+		throw Lambda::Error("Cann't write to a closed connection");
 
 	size_t bytesDone = 0;
 
 	while (bytesDone < data.size()) {
 
-		const auto bytesSent = send(this->hSocket, (const char*)data.data() + bytesDone, data.size() - bytesDone, MSG_NOSIGNAL);
+		const auto bytesSent = send(handle, (const char*)data.data() + bytesDone, data.size() - bytesDone, MSG_NOSIGNAL);
 
 		if (bytesSent > 0) {
 			bytesDone += static_cast<size_t>(bytesSent);
@@ -95,6 +98,7 @@ void Connection::write(const std::vector<uint8_t>& data) {
 		if (bytesSent < 0 && interruptedCodes.contains(osError)) continue;
 
 		//	a part of the data may be already out, so nothing sensible can be sent after it
+		lock.unlock();
 		this->end();
 		throw NetworkError("Network error while writing data", osError);
 	}
@@ -106,18 +110,24 @@ std::vector<uint8_t> Connection::read() {
 
 std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
-	if (this->hSocket == INVALID_SOCKET)
-		throw Lambda::Error("Can't read from a closed connection");
+	std::unique_lock<std::mutex> lock(this->m_read_mtx);
 
-	std::lock_guard<std::mutex> lock(this->m_read_mtx);
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET)
+		throw Lambda::Error("Can't read from a closed connection");
 
 	auto chunk = std::vector<uint8_t>(expectedSize);
 
-	auto bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	auto bytesReceived = recv(handle, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
 	while (bytesReceived < 0 && interruptedCodes.contains(GetOSErrorCode())) {
-		bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+		bytesReceived = recv(handle, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
 	}
 
+	const auto osError = GetOSErrorCode();
+
+	//	end() waits for the lock before it releases the descriptor
+	lock.unlock();
+
 	if (bytesReceived == 0) {
 
 		this->end();
@@ -125,8 +135,6 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
 	} else if (bytesReceived < 0) {
 
-		const auto osError = GetOSErrorCode();
-
 		if (blockingEndedCodes.contains(osError)) {
 
 			if (this->flags.closeOnTimeout) {
diff --git a/core/network/tcp/connection.hpp b/core/network/tcp/connection.hpp
index 5abac63..6029d4e 100644
--- a/core/network/tcp/connection.hpp
+++ b/core/network/tcp/connection.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <string>
 #include <mutex>
+#include <atomic>
 
 namespace Lambda::Network::TCP {
 
@@ -24,7 +25,7 @@ namespace Lambda::Network::TCP {
 
 	class Connection {
 		protected:
-			SockHandle hSocket;
+			std::atomic<SockHandle> hSocket;
 			ConnectionInfo m_info;
 			std::mutex m_read_mtx;
 			std::mutex m_write_mtx;
diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index 03cd221..d486033 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -48,35 +48,37 @@ ListenSocket::ListenSocket(const ListenConfig& init) : config(init) {
 }
 
 ListenSocket::~ListenSocket() {
-	if (this->hSocket == INVALID_SOCKET) return;
-	shutdown(this->hSocket, SD_BOTH);
-	closesocket(this->hSocket);
+	this->stop();
 }
 
 ListenSocket::ListenSocket(ListenSocket&& other) noexcept {
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->config = other.config;
-	other.hSocket = INVALID_SOCKET;
 }
 
 ListenSocket& ListenSocket::operator= (ListenSocket&& other) noexcept {
-	this->hSocket = other.hSocket;
+	if (this == &other) return *this;
+	this->stop();
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->config = other.config;
-	other.hSocket = INVALID_SOCKET;
 	return *this;
 }
 
 std::optional<Connection> ListenSocket::acceptConnection() {
 
+	//	stop() waits for this lock before it releases the descriptor
+	std::unique_lock<std::mutex> lock(this->m_accept_mtx);
+
 	//	check that we have a valid socket
-	if (this->hSocket == INVALID_SOCKET) {
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET) {
 		throw NetworkError("Cannot accept anything from a closed socket");
 	}
 
 	//	accept network connection
 	sockaddr_in peerAddr;
 	socklen_t clientAddrLen = sizeof(peerAddr);
-	auto nextSocket = accept(this->hSocket, (sockaddr*)&peerAddr, &clientAddrLen);
+	auto nextSocket = accept(handle, (sockaddr*)&peerAddr, &clientAddrLen);
 
 	//	verify that we have a valid socket
 	if (nextSocket == INVALID_SOCKET) {
@@ -84,6 +86,8 @@ std::optional<Connection> ListenSocket::acceptConnection() {
 		throw NetworkError("Socket accept() failed");
 	}
 
+	lock.unlock();
+
 	//	try getting peer host name
 	char tempbuffIPv4[32];
 	auto peerIpCString = inet_ntop(AF_INET, &peerAddr.sin_addr, tempbuffIPv4, sizeof(tempbuffIPv4));
@@ -121,11 +125,12 @@ const ListenConfig& ListenSocket::getConfig() const noexcept {
 
 void ListenSocket::stop() noexcept {
 
-	if (this->hSocket == INVALID_SOCKET) return;
-
-	const auto tempHandle = this->hSocket;
-	this->hSocket = INVALID_SOCKET;
+	const auto tempHandle = this->hSocket.exchange(INVALID_SOCKET);
+	if (tempHandle == INVALID_SOCKET) return;
 
+	//	make a blocked accept return, and only then release the descriptor
 	shutdown(tempHandle, SD_BOTH);
+
+	std::lock_guard<std::mutex> lock(this->m_accept_mtx);
 	closesocket(tempHandle);
 }
diff --git a/core/network/tcp/listener.hpp b/core/network/tcp/listener.hpp
index 361881a..dd8d9d3 100644
--- a/core/network/tcp/listener.hpp
+++ b/core/network/tcp/listener.hpp
@@ -5,6 +5,8 @@
 #include "./connection.hpp"
 
 #include <optional>
+#include <mutex>
+#include <atomic>
 
 namespace Lambda::Network::TCP {
 
@@ -16,7 +18,8 @@ namespace Lambda::Network::TCP {
 
 	class ListenSocket {
 		protected:
-			SockHandle hSocket;
+			std::atomic<SockHandle> hSocket;
+			std::mutex m_accept_mtx;
 			ListenConfig config;
 
 		public:
-- 
2.43.0


From 425959b95617fa40e88748203dc31647fadd26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 18/74] fix: server stopped on a failed accept, raced between
 accepting and shutting down, exceeded its connection limit and kept finished
 connections open

---
 core/server/instance.cpp | 77 ++++++++++++++++++++++++++++++----------
 core/server/server.hpp   |  5 ++-
 core/server/worker.hpp   | 12 +++++--
 3 files changed, 72 insertions(+), 22 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 8f65942..cc21213 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -31,7 +31,26 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 		throw Lambda::Error("ServiceOptions::maxConnections value is lower than allowed by minConnections");
 	}
 
-	this->serviceWorker = std::async([&]() {
+	this->serviceWorker = std::async(std::launch::async, [&]() {
+
+		//	a failure to take one connection must not take the whole service down
+		const auto acceptNext = [&]() -> std::optional<Network::TCP::Connection> {
+
+			while (!this->m_terminated && this->listener.active()) {
+
+				try {
+					return this->listener.acceptConnection();
+				} catch (const std::exception& err) {
+
+					if (this->m_terminated || !this->listener.active()) break;
+
+					syncout.error({ "[Service] Failed to accept a connection:", err.what() });
+					std::this_thread::sleep_for(100ms);
+				}
+			}
+
+			return std::nullopt;
+		};
 
 		if (this->config.service.useThreadList) {
 
@@ -53,25 +72,40 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 
 			while (!this->m_terminated && this->listener.active()) {
 
-				auto nextConn = this->listener.acceptConnection();
+				auto nextConn = acceptNext();
 				if (!nextConn.has_value()) break;
 
-				if (svcmaxconn && (this->m_connections_count > svcmaxconn)) {
-					nextConn.value().end();
+				//	terminate() walks this list too
+				std::lock_guard<std::mutex> lock(this->m_connections_mtx);
+				if (this->m_terminated) break;
+
+				if (svcmaxconn && (this->m_connections_count >= svcmaxconn)) {
+
 					this->m_connections.remove_if(workerJoinFilter);
-					continue;
+
+					if (this->m_connections_count >= svcmaxconn) {
+						nextConn.value().end();
+						continue;
+					}
 				}
 
-				this->m_connections.push_front({
-					std::move(nextConn.value())
-				});
-				this->m_connections_count++;
+				this->m_connections.emplace_front(std::move(nextConn.value()));
 
 				auto& nextWorker = this->m_connections.front();
-				nextWorker.worker = std::thread([&](WorkerContext& worker) {
-					connectionWorker(worker, this->config, this->httpHandler);
-					worker.finished = true;
-				}, std::ref(nextWorker));
+
+				try {
+					nextWorker.worker = std::thread([&](WorkerContext& worker) {
+						connectionWorker(worker, this->config, this->httpHandler);
+						worker.conn.end();
+						worker.finished = true;
+					}, std::ref(nextWorker));
+				} catch (const std::exception& err) {
+					this->m_connections.pop_front();
+					syncout.error({ "[Service] Failed to start a connection worker:", err.what() });
+					continue;
+				}
+
+				this->m_connections_count++;
 
 				if (!svcmaxconn || this->m_connections_count > gcThreshold) {
 					this->m_connections.remove_if(workerJoinFilter);
@@ -82,14 +116,18 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 
 			while (!this->m_terminated && this->listener.active()) {
 
-				auto nextConn = this->listener.acceptConnection();
+				auto nextConn = acceptNext();
 				if (!nextConn.has_value()) break;
 
-				std::thread([&](WorkerContext&& worker) {
-					connectionWorker(worker, this->config, this->httpHandler);
-				}, WorkerContext {
-					std::move(nextConn.value())
-				}).detach();
+				try {
+					std::thread([&](WorkerContext&& worker) {
+						connectionWorker(worker, this->config, this->httpHandler);
+					}, WorkerContext {
+						std::move(nextConn.value())
+					}).detach();
+				} catch (const std::exception& err) {
+					syncout.error({ "[Service] Failed to start a connection worker:", err.what() });
+				}
 			}
 		}
 	});
@@ -114,6 +152,7 @@ void LambdaInstance::terminate() {
 
 	//	Request all connection workers to exit
 	if (this->config.service.useThreadList) {
+		std::lock_guard<std::mutex> lock(this->m_connections_mtx);
 		for (auto& worker : this->m_connections) {
 			worker.shutdownFlag = true;
 		}
diff --git a/core/server/server.hpp b/core/server/server.hpp
index 4bd0509..32092f1 100644
--- a/core/server/server.hpp
+++ b/core/server/server.hpp
@@ -8,6 +8,8 @@
 #include "../network/tcp/listener.hpp"
 
 #include <forward_list>
+#include <atomic>
+#include <mutex>
 
 namespace Lambda {
 
@@ -21,9 +23,10 @@ namespace Lambda {
 			RequestCallback httpHandler;
 
 			std::future<void> serviceWorker;
-			bool m_terminated = false;
+			std::atomic<bool> m_terminated = false;
 
 			std::forward_list<WorkerContext> m_connections;
+			std::mutex m_connections_mtx;
 			size_t m_connections_count = 0;
 
 			/**
diff --git a/core/server/worker.hpp b/core/server/worker.hpp
index 1c8c86b..8dc086a 100644
--- a/core/server/worker.hpp
+++ b/core/server/worker.hpp
@@ -4,14 +4,22 @@
 #include "../network/tcp/connection.hpp"
 
 #include <thread>
+#include <atomic>
 
 namespace Lambda {
 
 	struct WorkerContext {
 		Network::TCP::Connection conn;
 		std::thread worker;
-		bool shutdownFlag = false;
-		bool finished = false;
+		std::atomic<bool> shutdownFlag = false;
+		std::atomic<bool> finished = false;
+
+		WorkerContext(Network::TCP::Connection&& connInit) : conn(std::move(connInit)) {}
+		WorkerContext(WorkerContext&& other) noexcept :
+			conn(std::move(other.conn)),
+			worker(std::move(other.worker)),
+			shutdownFlag(other.shutdownFlag.load()),
+			finished(other.finished.load()) {}
 	};
 };
 
-- 
2.43.0


From 89976925211607e0b4cbcaa4851420fc22c54baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 19/74] fix: HTTP requests that arrived pipelined or in several
 segments were stuck, truncated or dropped

---
 core/http/transport_v1.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 28b5d39..ebe7278 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -42,25 +42,32 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	static const std::string patternEndHeader = "\r\n\r\n";
-	auto headerEnded = this->m_readbuff.end();
+
+	//	the previous read may have already brought the next request
+	auto headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
 
 	while (this->m_conn.isOpen() && headerEnded == this->m_readbuff.end()) {
 
+		if (this->m_readbuff.size() > this->m_topts.maxRequestSize) {
+			throw ProtocolError("Request header too large", 413);
+		}
+
 		auto newBytes = this->m_conn.read();
 		if (!newBytes.size()) break;
 
 		this->m_readbuff.insert(this->m_readbuff.end(), newBytes.begin(), newBytes.end());
 		headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
-
-		if (this->m_readbuff.size() > this->m_topts.maxRequestSize) {
-			throw ProtocolError("Request header too large", 413);
-		}
 	}
 
 	if (!this->m_readbuff.size() || headerEnded == this->m_readbuff.end()) {
 		return false;
 	}
 
+	const size_t headerSize = std::distance(this->m_readbuff.begin(), headerEnded) + patternEndHeader.size();
+	if (headerSize > this->m_topts.maxRequestSize) {
+		throw ProtocolError("Request header too large", 413);
+	}
+
 	auto headerFields = Strings::split(std::string(this->m_readbuff.begin(), headerEnded), "\r\n");
 	this->m_readbuff.erase(this->m_readbuff.begin(), headerEnded + patternEndHeader.size());
 
@@ -180,17 +187,15 @@ bool TransportContextV1::awaitNext() {
 
 	if (bodySize) {
 
-		const auto totalRequestSize = std::distance(this->m_readbuff.begin(), headerEnded) + bodySize;
-
-		if (totalRequestSize > this->m_topts.maxRequestSize) {
+		if (bodySize > this->m_topts.maxRequestSize - headerSize) {
 			throw ProtocolError("Total request size is too large", 413);
 		}
 
-		auto bodyRemaining = bodySize - this->m_readbuff.size();
-		if (bodyRemaining) {
-	
-			auto temp = this->m_conn.read(bodyRemaining);
-			if (temp.size() != bodyRemaining) {
+		//	the body may take any number of reads, or be here already along with a part of the next request
+		while (this->m_readbuff.size() < bodySize) {
+
+			auto temp = this->m_conn.read(std::min<size_t>(bodySize - this->m_readbuff.size(), 64 * 1024));
+			if (!temp.size()) {
 				throw NetworkError("Incomplete request body");
 			}
 
-- 
2.43.0


From ab65b311b5a22878427aebb2d564e5b59162e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 20/74] fix: requests with an invalid start line, invalid
 content-length or unsupported transfer-encoding were processed

---
 core/http/transport_v1.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index ebe7278..ed2ec61 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -71,9 +71,9 @@ bool TransportContextV1::awaitNext() {
 	auto headerFields = Strings::split(std::string(this->m_readbuff.begin(), headerEnded), "\r\n");
 	this->m_readbuff.erase(this->m_readbuff.begin(), headerEnded + patternEndHeader.size());
 
-	auto headerStartLine = Strings::split(headerFields.at(0), ' ');
-	if (headerStartLine.size() < 2) {
-		throw ProtocolError("Invalid HTTP request");
+	auto headerStartLine = Strings::split(headerFields.size() ? headerFields.front() : "", ' ');
+	if (headerStartLine.size() != 3 || !Strings::startsWith(headerStartLine.back(), "HTTP/")) {
+		throw ProtocolError("Invalid HTTP request", 400);
 	}
 
 	auto& requestMethodString = headerStartLine.at(0);
@@ -183,7 +183,25 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	auto bodySizeHeader = next.headers.get("content-length");
-	size_t bodySize = bodySizeHeader.size() ? std::stoull(bodySizeHeader) : 0;
+	size_t bodySize = 0;
+
+	for (const auto& item : next.headers.getAll("content-length")) {
+		if (item != bodySizeHeader || item.find_first_not_of("0123456789") != std::string::npos) {
+			throw ProtocolError("Invalid content length", 400);
+		}
+	}
+
+	if (bodySizeHeader.size()) {
+		try {
+			bodySize = std::stoull(bodySizeHeader);
+		} catch (const std::out_of_range& err) {
+			throw ProtocolError("Total request size is too large", 413);
+		}
+	}
+
+	if (next.headers.has("transfer-encoding")) {
+		throw ProtocolError("Transfer encodings are not supported", 501);
+	}
 
 	if (bodySize) {
 
-- 
2.43.0


From 7d947c08a1fed011335ff3a6723307763a32b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 21/74] fix: IPv6 host header was split inside the address

---
 core/http/transport_v1.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index ed2ec61..f05a516 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -122,7 +122,8 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	const auto hostHeader = next.headers.get("host");
-	const auto hostHeaderSem = hostHeader.size() ? hostHeader.find(':') : std::string::npos;
+	const auto hostAddrEnd = Strings::startsWith(hostHeader, "[") ? hostHeader.find(']') : 0;
+	const auto hostHeaderSem = hostHeader.size() ? hostHeader.find(':', hostAddrEnd) : std::string::npos;
 
 	const auto& conninfo = this->m_conn.info();
 
-- 
2.43.0


From 15af9ca13e98206d558a922eb515fe8926b4d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 22/74] fix: connection header was compared case-sensitively
 and promised keep-alive on connections that get closed or must not be reused

---
 core/http/transport_v1.cpp |  4 ++--
 core/server/worker.cpp     | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index f05a516..26189ab 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -151,7 +151,7 @@ bool TransportContextV1::awaitNext() {
 
 	if (this->m_topts.reuseConnections) {
 
-		const auto connectionHeader = next.headers.get("connection");
+		const auto connectionHeader = Strings::toLowerCase(next.headers.get("connection"));
 
 		switch (this->m_keepalive) {
 
@@ -324,7 +324,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	responseHeaders.set("x-request-id", this->m_id.toString() + '-' + responsectx.id.toString());
 
 	//	set connection header to acknowledge keep-alive mode
-	const auto responseConnectionHeader = responseHeaders.get("connection");
+	const auto responseConnectionHeader = Strings::toLowerCase(responseHeaders.get("connection"));
 	if (responseConnectionHeader.size()) {
 		this->m_keepalive = Strings::includes(responseConnectionHeader, "close") ?
 			KeepAliveStatus::Close : KeepAliveStatus::KeepAlive;
diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 17aad3d..0f6e61a 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -2,6 +2,7 @@
 #include "../http/transport.hpp"
 #include "../http/transport_impl.hpp"
 #include "../crypto/crypto.hpp"
+#include "../polyfill/polyfill.hpp"
 
 using namespace Lambda;
 using namespace Lambda::Websocket;
@@ -43,12 +44,14 @@ void Server::connectionWorker(
 			return;
 		}
 
-		const auto errorResponse = Pages::renderErrorPage(
+		auto errorResponse = Pages::renderErrorPage(
 			error.respondStatus.value(),
 			error.message(),
 			config.errorResponseType
 		);
 
+		errorResponse.headers.set("connection", "close");
+
 		try {
 
 			//	Request ID is generated here.
@@ -175,6 +178,18 @@ void Server::connectionWorker(
 				}
 
 				auto& response = functionResponse.value();
+
+				//	a handler may ask to close the connection but not to keep it
+				//	when the client or the config say otherwise
+				auto closeRequested = !config.transport.reuseConnections;
+				for (const auto& item : request.headers.getAll("connection")) {
+					closeRequested |= Strings::includes(Strings::toLowerCase(item), "close");
+				}
+
+				if (closeRequested) {
+					response.headers.set("connection", "close");
+				}
+
 				transport.respond({ response, next.id });
 
 				if (config.loglevel.requests) {
-- 
2.43.0


From a6b9a9c791246134f1837546599b16df93118824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 23/74] fix: response of a handler which recovered from a
 refused websocket upgrade was dropped

---
 core/server/worker.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 0f6e61a..7cbc32d 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -109,9 +109,18 @@ void Server::connectionWorker(
 			};
 
 			const std::function<WebsocketContext()> upgradeCallbackWS = [&]() {
+
+				const auto previousMode = handlerMode;
 				handlerMode = HandlerMode::WS;
 				logConnectionUpgrade("Websocket");
-				return WebsocketContext({ workerctx, transport, next });
+
+				try {
+					return WebsocketContext({ workerctx, transport, next });
+				} catch (const UpgradeError& err) {
+					//	nothing was sent, so the handler still can respond over http
+					handlerMode = previousMode;
+					throw;
+				}
 			};
 
 			const RequestContext requestCTX = {
@@ -144,8 +153,6 @@ void Server::connectionWorker(
 
 			const auto handleUpgradeError = [&](const UpgradeError& error) -> HTTP::Response {
 
-				handlerMode = HandlerMode::HTTP;
-
 				if (config.loglevel.requests) {
 					syncout.error({
 						logRequestPrefix,
@@ -163,7 +170,6 @@ void Server::connectionWorker(
 			try {
 				functionResponse = handlerCallback(request, requestCTX).response;
 			} catch (const UpgradeError& err) {
-				handlerMode = HandlerMode::HTTP;
 				functionResponse = handleUpgradeError(err);
 			} catch (const std::exception& err) {
 				functionResponse = handleFunctionError(err);
-- 
2.43.0


From 96061534cc79d6a568275bbf735aeb82564a96c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 24/74] fix: response compression ignored accept-encoding
 weights, stuck to the first request's encodings and re-encoded encoded bodies

---
 core/http/transport_v1.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 26189ab..39d9904 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -169,11 +169,22 @@ bool TransportContextV1::awaitNext() {
 		}
 	}
 
-	auto acceptEncodingHeader = next.headers.get("accept-encoding");
+	this->m_compress = ContentEncodings::None;
+
+	const auto acceptEncodingHeader = Strings::toLowerCase(next.headers.get("accept-encoding"));
 	if (this->m_topts.useCompression && acceptEncodingHeader.size()) {
 
-		auto encodingNames = Strings::split(acceptEncodingHeader, ", ");
-		auto acceptEncodingsSet = std::set<std::string>(encodingNames.begin(), encodingNames.end());
+		std::set<std::string> acceptEncodingsSet;
+
+		for (const auto& item : Strings::split(acceptEncodingHeader, ',')) {
+
+			//	an encoding with zero weight is explicitly not acceptable
+			const auto weightPos = item.find(';');
+			const auto weight = weightPos != std::string::npos ? Strings::trim(item.substr(weightPos + 1)) : "";
+			if (Strings::startsWith(weight, "q=") && weight.find_first_not_of("0.", 2) == std::string::npos) continue;
+
+			acceptEncodingsSet.insert(Strings::trim(item.substr(0, weightPos)));
+		}
 
 		for (const auto& encoding : contentEncodingMap) {
 			if (acceptEncodingsSet.contains(encoding.second)) {
@@ -260,7 +271,8 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 
 		const auto& contentTypeHeader = responseHeaders.get("content-type");
 
-		if (this->flags.autocompress) {
+		//	leave the body alone if it's been already encoded
+		if (this->flags.autocompress && !responseHeaders.has("content-encoding")) {
 
 			if (contentTypeHeader.size()) {
 
-- 
2.43.0


From d38d9af32d1c40e4eec687083b8687bb91ef325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 25/74] fix: responses to HEAD and 1xx, 204 and 304 responses
 carried a body

---
 core/http/transport_impl.hpp |  1 +
 core/http/transport_v1.cpp   | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/http/transport_impl.hpp b/core/http/transport_impl.hpp
index 756c7a0..877af1b 100644
--- a/core/http/transport_impl.hpp
+++ b/core/http/transport_impl.hpp
@@ -28,6 +28,7 @@ namespace Lambda::HTTP::Transport {
 			KeepAliveStatus m_keepalive = KeepAliveStatus::Unknown;
 			ContentEncodings m_compress = ContentEncodings::None;
 			IncomingRequest* m_next = nullptr;
+			bool m_headRequest = false;
 
 		public:
 			TransportContextV1(Network::TCP::Connection& connInit, const TransportOptions& optsInit);
diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 39d9904..df4ba0e 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -41,6 +41,8 @@ bool TransportContextV1::awaitNext() {
 		return true;
 	}
 
+	this->m_headRequest = false;
+
 	static const std::string patternEndHeader = "\r\n\r\n";
 
 	//	the previous read may have already brought the next request
@@ -236,6 +238,8 @@ bool TransportContextV1::awaitNext() {
 		this->m_readbuff.erase(this->m_readbuff.begin(), this->m_readbuff.begin() + bodySize);
 	}
 
+	this->m_headRequest = next.method == HTTP::Methods::HEAD;
+
 	this->m_next = new IncomingRequest {
 		std::move(next),
 		Crypto::ShortID()
@@ -264,6 +268,11 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 		throw Lambda::Error("respond() canceled: Before responding to a request one must be read with nextRequest() call first");
 	}
 
+	//	these responses never have any content
+	const auto& response = responsectx.response;
+	const auto isBodyless = response.status.type() == HTTP::Status::Type::Info ||
+		response.status.code() == 204 || response.status.code() == 304;
+
 	auto applyEncoding = ContentEncodings::None;
 	auto responseHeaders = responsectx.response.headers;
 
@@ -272,7 +281,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 		const auto& contentTypeHeader = responseHeaders.get("content-type");
 
 		//	leave the body alone if it's been already encoded
-		if (this->flags.autocompress && !responseHeaders.has("content-encoding")) {
+		if (this->flags.autocompress && !isBodyless && !responseHeaders.has("content-encoding")) {
 
 			if (contentTypeHeader.size()) {
 
@@ -327,7 +336,9 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 		responseHeaders.set("content-encoding", contentEncodingMap.at(applyEncoding));
 	}
 
-	if (this->flags.forceContentLength) {
+	if (isBodyless) {
+		responseHeaders.del("content-length");
+	} else if (this->flags.forceContentLength) {
 		responseHeaders.set("content-length", std::to_string(bodyBufferSize));
 	}
 
@@ -379,7 +390,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
 
 	this->m_conn.write(headerBuff);
-	if (bodyBufferSize) this->m_conn.write(responseBodyBuffer);
+	if (bodyBufferSize && !isBodyless && !this->m_headRequest) this->m_conn.write(responseBodyBuffer);
 
 	//	close connection if keepalive mode is not in unknown or active state
 	if (this->m_keepalive == KeepAliveStatus::Close) {
-- 
2.43.0


From 64e4091be64c8790cedf4e97850e47eb7ec10db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 26/74] fix: request query lost everything before a second
 question mark

---
 core/http/transport_v1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index df4ba0e..8c27133 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -119,8 +119,8 @@ bool TransportContextV1::awaitNext() {
 	if (urlSearchPos != std::string::npos) {
 		auto trimSize = urlHashPos != std::string::npos ? (urlHashPos - urlSearchPos - 1) : 0;
 		next.url.searchParams = trimSize ?
-			requestUrlString.substr(urlSearchPos + 1, trimSize) :
-			requestUrlString.substr(urlSearchPos + 1);
+			requestUrlString.substr(urlSearchPos, trimSize + 1) :
+			requestUrlString.substr(urlSearchPos);
 	}
 
 	const auto hostHeader = next.headers.get("host");
-- 
2.43.0


From 98a1b2019d0411d27066edc47d0e4fdf6f429aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:15 +0000
Subject: [PATCH 27/74] fix: empty responses were marked as encoded without
 being a valid encoded stream

---
 core/http/transport_v1.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 8c27133..011157d 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -307,6 +307,11 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 		std::vector<uint8_t> responseBodyBuffer;
 		const auto& responseBody = responsectx.response.body.buffer();
 
+		//	nothing to encode
+		if (!responseBody.size()) {
+			applyEncoding = ContentEncodings::None;
+		}
+
 		switch (applyEncoding) {
 
 			case ContentEncodings::Brotli: {
-- 
2.43.0


From 78f108d92653964bb1b5996005f8b8fb55326d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 28/74] fix: requests with an empty method or target were
 processed

---
 core/http/transport_v1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 011157d..1d08e1b 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -74,7 +74,7 @@ bool TransportContextV1::awaitNext() {
 	this->m_readbuff.erase(this->m_readbuff.begin(), headerEnded + patternEndHeader.size());
 
 	auto headerStartLine = Strings::split(headerFields.size() ? headerFields.front() : "", ' ');
-	if (headerStartLine.size() != 3 || !Strings::startsWith(headerStartLine.back(), "HTTP/")) {
+	if (headerStartLine.size() != 3 || !headerStartLine[0].size() || !headerStartLine[1].size() || !Strings::startsWith(headerStartLine.back(), "HTTP/")) {
 		throw ProtocolError("Invalid HTTP request", 400);
 	}
 
-- 
2.43.0


From 7556d0d95194bf2268c6797ee746b54b61d6678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 29/74] fix: websocket frames that arrived in parts or together
 were misread, lengths overflowed, fragments got wrong masks and flags,
 invalid frames crashed or were accepted

---
 core/websocket/transport.cpp | 104 +++++++++++++++++++----------------
 core/websocket/transport.hpp |   6 +-
 2 files changed, 61 insertions(+), 49 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index f65bfc2..0fcdf43 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -11,6 +11,7 @@ static const std::string wsPingString = "ping/lambda/ws";
 static const time_t wsActTimeout = 5000;
 static const unsigned short wsMaxSkippedAttempts = 3;
 static const size_t wsReadChunk = 256;
+static const size_t wsMaxControlPayload = 125;
 
 static const std::initializer_list<OpCode> supportedWsOpcodes = {
 	OpCode::Binary,
@@ -31,7 +32,11 @@ void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 	this->m_transport.writeRaw(writeBuff);
 }
 
-FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
+std::optional<FrameHeader> Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
+
+	if (buffer.size() < FrameHeader::min_size) {
+		return std::nullopt;
+	}
 
 	FrameHeader header {
 		static_cast<FrameControlBits>(buffer.at(0) & 0xF0),
@@ -40,6 +45,11 @@ FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 		static_cast<size_t>(buffer.at(1) & 0x7F)
 	};
 
+	const size_t extendedSize = header.payloadSize == 126 ? 2 : (header.payloadSize == 127 ? 8 : 0);
+	if (buffer.size() < header.size + extendedSize) {
+		return std::nullopt;
+	}
+
 	if (header.payloadSize == 126) {
 		header.size += 2;
 		header.payloadSize = (buffer.at(2) << 8) | buffer.at(3);
@@ -47,7 +57,7 @@ FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 		header.size += 8;
 		header.payloadSize = 0;
 		for (int i = 0; i < 8; i++) {
-			header.payloadSize |= (buffer.at(2 + i) << ((7 - i) * 8));
+			header.payloadSize |= (static_cast<size_t>(buffer.at(2 + i)) << ((7 - i) * 8));
 		}
 	}
 
@@ -55,7 +65,7 @@ FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 	if (maskUsed) {
 
 		if (buffer.size() < header.size + FrameHeader::mask_size) {
-			throw std::runtime_error("invalid websocket frame: not enough data to read mask");
+			return std::nullopt;
 		}
 
 		std::array<uint8_t, FrameHeader::mask_size> mask;
@@ -143,18 +153,19 @@ void WebsocketContext::asyncWorker() {
 			lastPing = std::chrono::steady_clock::now();
 		}
 
-		const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
-		if (!nextChunk.size()) continue;
-
-		downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
-		if (downloadBuff.size() < FrameHeader::min_size) continue;
+		const auto readMore = [&]() {
+			const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
+			downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
+		};
 
-		if (downloadBuff.size() > this->m_topts.maxRequestSize) {
-			this->close(CloseReason::MessageTooBig);
-			throw std::runtime_error("Expected frame size too large");
+		//	a single read can bring just a part of a frame, or several of them
+		const auto nextHeader = parseFrameHeader(downloadBuff);
+		if (!nextHeader.has_value()) {
+			readMore();
+			continue;
 		}
 
-		auto frameHeader = parseFrameHeader(downloadBuff);
+		const auto& frameHeader = nextHeader.value();
 
 		bool opcodeValid = false;
 		for (const auto& item : supportedWsOpcodes) {
@@ -169,46 +180,45 @@ void WebsocketContext::asyncWorker() {
 			throw std::runtime_error("received an invalid opcode (" + std::to_string(opcodeInt) + ")");
 		}
 
-		const auto frameSize = frameHeader.size + frameHeader.payloadSize;
-		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
+		const auto isFinal = frameHeader.finbit == FrameControlBits::BitFinal;
+		const auto isControl = frameHeader.opcode == OpCode::Close ||
+			frameHeader.opcode == OpCode::Ping || frameHeader.opcode == OpCode::Pong;
 
-		if (frameSize > this->m_topts.maxRequestSize) {
-			this->close(CloseReason::MessageTooBig);
-			throw std::runtime_error("frame size too large");
+		//	there are no extensions in use that would need the reserved bits
+		if (!isFinal && frameHeader.finbit != FrameControlBits::BitContinue) {
+			this->close(CloseReason::ProtocolError);
+			throw std::runtime_error("received a frame with reserved bits set");
 		}
 
-		if (frameHeader.payloadSize + frameHeader.payloadSize < downloadBuff.size()) {
-
-			auto expectedSize = frameHeader.payloadSize - payloadBuff.size();
-			auto payloadChunk = this->m_transport.readRaw(expectedSize);
-
-			if (payloadChunk.size() < expectedSize) {
-				this->close(CloseReason::ProtocolError);
-				throw std::runtime_error("failed to read websocket frame: not enough data");
-			}
-
-			payloadBuff.insert(payloadBuff.end(), payloadChunk.begin(), payloadChunk.end());
+		if (!frameHeader.mask.has_value()) {
+			this->close(CloseReason::ProtocolError);
+			throw std::runtime_error("received unmasked data from the client");
 		}
 
-		if (!(frameHeader.mask.has_value() || multipartCtx.has_value())) {
+		if (isControl && (!isFinal || frameHeader.payloadSize > wsMaxControlPayload)) {
 			this->close(CloseReason::ProtocolError);
-			throw std::runtime_error("received unmasked data from the client");
+			throw std::runtime_error("received a malformed control frame");
 		}
 
-		if (frameHeader.finbit != FrameControlBits::BitFinal) {
+		if (!isControl && (frameHeader.opcode == OpCode::Continue) != multipartCtx.has_value()) {
+			this->close(CloseReason::ProtocolError);
+			throw std::runtime_error("received a misplaced continuation frame or an unfinished message");
+		}
 
-			if (!multipartCtx.has_value()) {
+		const auto frameSize = frameHeader.size + frameHeader.payloadSize;
 
-				multipartCtx = MultipartMessageContext({
-					frameHeader.mask.value(),
-					frameHeader.opcode == OpCode::Binary
-				});
+		if (frameHeader.payloadSize > this->m_topts.maxRequestSize || frameSize > this->m_topts.maxRequestSize) {
+			this->close(CloseReason::MessageTooBig);
+			throw std::runtime_error("frame size too large");
+		}
 
-			} else {
-				frameHeader.mask = multipartCtx.value().mask;
-			}
+		if (downloadBuff.size() < frameSize) {
+			readMore();
+			continue;
 		}
 
+		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
+
 		//	unmask the payload
 		const auto& frameMask = frameHeader.mask.value();
 		for (size_t i = 0; i < payloadBuff.size(); i++) {
@@ -239,11 +249,9 @@ void WebsocketContext::asyncWorker() {
 			case OpCode::Pong: {
 
 				//	check that pong payload matches the ping's one
+				//	an unsolicited one is fine too, it just doesn't answer anything
 				if (std::equal(payloadBuff.begin(), payloadBuff.end(), wsPingString.begin(), wsPingString.end())) {
 					lastPingResponse = std::chrono::steady_clock::now();
-				} else {
-					this->close(CloseReason::ProtocolError);
-					throw std::runtime_error("invalid pong reponse");
 				}
 
 			} break;
@@ -258,13 +266,15 @@ void WebsocketContext::asyncWorker() {
 				this->m_queue.push({
 					payloadBuff,
 					isBinary,
-					frameHeader.finbit == FrameControlBits::BitFinal
+					!isFinal
 				});
-			}
-		}
 
-		if (frameHeader.finbit == FrameControlBits::BitFinal && multipartCtx.has_value()) {
-			multipartCtx = std::nullopt;
+				if (isFinal) {
+					multipartCtx = std::nullopt;
+				} else {
+					multipartCtx = MultipartMessageContext({ isBinary });
+				}
+			}
 		}
 
 		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameHeader.size + frameHeader.payloadSize);
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index f9e300f..9d50820 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -36,11 +36,13 @@ namespace Lambda::Websocket::Transport {
 	};
 
 	struct MultipartMessageContext {
-		std::array<uint8_t, FrameHeader::mask_size> mask;
 		bool binary = false;
 	};
 
-	FrameHeader parseFrameHeader(const std::vector<uint8_t>& buffer);
+	/**
+	 * Returns nothing when the buffer doesn't hold a complete header yet
+	*/
+	std::optional<FrameHeader> parseFrameHeader(const std::vector<uint8_t>& buffer);
 	std::vector <uint8_t> serializeMessage(const Websocket::Message& message);
 	std::vector <uint8_t> serializeFrameHeader(const FrameHeader& header);
 };
-- 
2.43.0


From 57fc91379649345cb7f3de458fd43ef1ecb1d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 30/74] fix: websocket handler and reader raced on the queue
 and the wire, sent several close frames or data after one, broke fragmented
 messages and crashed when the peer was gone

---
 core/websocket/transport.cpp | 62 +++++++++++++++++++++---------------
 core/websocket/transport.hpp |  2 +-
 core/websocket/websocket.cpp | 31 ++++++++++--------
 core/websocket/websocket.hpp |  9 ++++--
 4 files changed, 62 insertions(+), 42 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 0fcdf43..5359ed5 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -24,11 +24,32 @@ static const std::initializer_list<OpCode> supportedWsOpcodes = {
 
 void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 
+	//	nothing must get onto the wire after a close frame or in the middle of another frame
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
 	if (this->m_stopped) {
 		throw Lambda::Error("Cannot send websocket message: connection was closed");
 	}
 
-	auto writeBuff = serializeMessage(msg);
+	auto writeBuff = serializeMessage(msg, this->m_sent_partial);
+	this->m_transport.writeRaw(writeBuff);
+	this->m_sent_partial = msg.partial;
+}
+
+void WebsocketContext::sendControl(uint8_t opcode, const std::vector<uint8_t>& payload) {
+
+	auto writeBuff = serializeFrameHeader({
+		FrameControlBits::BitFinal,
+		static_cast<OpCode>(opcode),
+		static_cast<size_t>(0),
+		payload.size()
+	});
+
+	writeBuff.insert(writeBuff.end(), payload.begin(), payload.end());
+
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+	if (this->m_stopped) return;
+
 	this->m_transport.writeRaw(writeBuff);
 }
 
@@ -106,12 +127,12 @@ std::vector <uint8_t> Transport::serializeFrameHeader(const FrameHeader& header)
 	return resultBuffer;
 }
 
-std::vector<uint8_t> Transport::serializeMessage(const Message& message) {
+std::vector<uint8_t> Transport::serializeMessage(const Message& message, bool continuation) {
 
 	//	create frame buffer
 	FrameHeader header {
 		message.partial ? FrameControlBits::BitContinue : FrameControlBits::BitFinal,
-		message.binary ? OpCode::Binary : OpCode::Text,
+		continuation ? OpCode::Continue : (message.binary ? OpCode::Binary : OpCode::Text),
 		static_cast<size_t>(0),
 		message.size(),
 	};
@@ -140,22 +161,22 @@ void WebsocketContext::asyncWorker() {
 
 		} else if ((std::chrono::steady_clock::now() - lastPing) > std::chrono::milliseconds(wsActTimeout)) {
 
-			auto pingHeader = serializeFrameHeader({
-				FrameControlBits::BitFinal,
-				OpCode::Ping,
-				static_cast<size_t>(0),
-				wsPingString.size()
-			});
-
-			this->m_transport.writeRaw(pingHeader);
-			this->m_transport.writeRaw(std::vector<uint8_t>(wsPingString.begin(), wsPingString.end()));
+			this->sendControl(
+				static_cast<std::underlying_type_t<OpCode>>(OpCode::Ping),
+				std::vector<uint8_t>(wsPingString.begin(), wsPingString.end())
+			);
 
 			lastPing = std::chrono::steady_clock::now();
 		}
 
 		const auto readMore = [&]() {
-			const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
-			downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
+			try {
+				const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
+				downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
+			} catch (...) {
+				//	it's not an error when the handler has closed the connection
+				if (!this->m_stopped) throw;
+			}
 		};
 
 		//	a single read can bring just a part of a frame, or several of them
@@ -228,22 +249,11 @@ void WebsocketContext::asyncWorker() {
 		switch (frameHeader.opcode) {
 
 			case OpCode::Close: {
-				this->m_stopped = true;
 				this->close(CloseReason::Normal);
 			} break;
 
 			case OpCode::Ping: {
-
-				const auto pongHeader = serializeFrameHeader({
-					FrameControlBits::BitFinal,
-					OpCode::Pong,
-					static_cast<size_t>(0),
-					frameHeader.payloadSize
-				});
-
-				this->m_transport.writeRaw(pongHeader);
-				this->m_transport.writeRaw(payloadBuff);
-
+				this->sendControl(static_cast<std::underlying_type_t<OpCode>>(OpCode::Pong), payloadBuff);
 			} break;
 
 			case OpCode::Pong: {
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index 9d50820..1fbdd15 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -43,7 +43,7 @@ namespace Lambda::Websocket::Transport {
 	 * Returns nothing when the buffer doesn't hold a complete header yet
 	*/
 	std::optional<FrameHeader> parseFrameHeader(const std::vector<uint8_t>& buffer);
-	std::vector <uint8_t> serializeMessage(const Websocket::Message& message);
+	std::vector <uint8_t> serializeMessage(const Websocket::Message& message, bool continuation);
 	std::vector <uint8_t> serializeFrameHeader(const FrameHeader& header);
 };
 
diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index c110519..50d3621 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -61,16 +61,14 @@ WebsocketContext::WebsocketContext(WebsocketInit init) :
 	this->m_transport.tcpconn().flags.closeOnTimeout = false;
 	this->m_transport.tcpconn().setTimeouts(sockRcvTimeout, Network::SetTimeoutsDirection::Receive);
 
-	this->m_reader = std::async(&WebsocketContext::asyncWorker, this);
+	this->m_reader = std::async(std::launch::async, &WebsocketContext::asyncWorker, this);
 }
 
 WebsocketContext::~WebsocketContext() {
 
-	if (!this->m_stopped && this->m_transport.isConnected()) {
-		this->close(CloseReason::GoingAway);
-	}
-
-	this->m_stopped = true;
+	//	the peer may be gone already
+	try { this->close(CloseReason::GoingAway); }
+		catch (...) {}
 
 	if (this->m_reader.valid()) {
 		try { this->m_reader.get(); }
@@ -80,7 +78,12 @@ WebsocketContext::~WebsocketContext() {
 
 void WebsocketContext::close(Websocket::CloseReason reason) {
 
-	this->m_stopped = true;
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
+	//	there must be only one close frame, and only if there's somebody to get it
+	if (this->m_stopped.exchange(true) || !this->m_transport.isConnected()) {
+		return;
+	}
 
 	const auto closeReasonCode = Bits::netwnormx(static_cast<std::underlying_type_t<CloseReason>>(reason));
 
@@ -101,17 +104,18 @@ void WebsocketContext::close(Websocket::CloseReason reason) {
 }
 
 bool WebsocketContext::hasMessage() const noexcept {
+	std::lock_guard<std::mutex> lock(this->m_read_mtx);
 	return this->m_queue.size() > 0;
 }
 
 Message WebsocketContext::nextMessage() {
 
+	std::lock_guard<std::mutex>lock(this->m_read_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("Message queue is empty");
 	}
 
-	std::lock_guard<std::mutex>lock(this->m_read_mtx);
-
 	Message temp = this->m_queue.front();
 	this->m_queue.pop();
 
@@ -121,19 +125,20 @@ Message WebsocketContext::nextMessage() {
 bool WebsocketContext::awaitMessage() {
 
 	if (!this->m_reader.valid() || this->m_worker.shutdownFlag) {
-		return this->m_queue.size();
+		return this->hasMessage();
 	}
 
 	auto readerDone = false;
-	while (!readerDone && !this->m_queue.size() && !this->m_worker.shutdownFlag) {
+	while (!readerDone && !this->hasMessage() && !this->m_worker.shutdownFlag) {
 		readerDone = this->m_reader.wait_for(std::chrono::milliseconds(1)) == std::future_status::ready;
 	}
 
-	if (readerDone) {
+	//	it could have brought something before it ended
+	if (readerDone && !this->hasMessage()) {
 		this->m_reader.get();
 	}
 
-	return this->m_queue.size();
+	return this->hasMessage();
 }
 
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 28f2439..e9dced5 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -9,6 +9,8 @@
 #include <vector>
 #include <future>
 #include <queue>
+#include <mutex>
+#include <atomic>
 
 namespace Lambda::Websocket {
 
@@ -57,9 +59,12 @@ namespace Lambda::Websocket {
 
 			std::future<void> m_reader;
 			std::queue<Websocket::Message> m_queue;
-			std::mutex m_read_mtx;
-			bool m_stopped = false;
+			mutable std::mutex m_read_mtx;
+			std::mutex m_write_mtx;
+			std::atomic<bool> m_stopped = false;
+			bool m_sent_partial = false;
 			void asyncWorker();
+			void sendControl(uint8_t opcode, const std::vector<uint8_t>& payload);
 
 		public:
 			WebsocketContext(WebsocketInit init);
-- 
2.43.0


From 9b0b98d2dae698a0b70bb725e9cb6e434e5a08f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 31/74] fix: line breaks in server-sent event data, names and
 ids broke the event stream

---
 core/sse/writer.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/sse/writer.cpp b/core/sse/writer.cpp
index fa8033f..cd53982 100644
--- a/core/sse/writer.cpp
+++ b/core/sse/writer.cpp
@@ -34,6 +34,12 @@ void Writer::push(const EventMessage& event) {
 		throw Lambda::Error("SSE listener disconnected");
 	}
 
+	//	these have to fit on a single line
+	const auto singleLine = event.event.value_or("") + event.id.value_or("");
+	if (singleLine.find_first_of("\r\n") != std::string::npos) {
+		throw Lambda::Error("SSE event name and ID cannot contain line breaks");
+	}
+
 	std::vector<std::pair<std::string, std::string>> messageFields;
 
 	if (event.event.has_value()) {
@@ -44,7 +50,14 @@ void Writer::push(const EventMessage& event) {
 		messageFields.push_back({ "id", event.id.value() });
 	}
 
-	messageFields.push_back({ "data", event.data });
+	//	and each line of the data needs a field of it's own
+	size_t dataPos = 0;
+	for (auto lineEnd = event.data.find_first_of("\r\n"); lineEnd != std::string::npos; lineEnd = event.data.find_first_of("\r\n", dataPos)) {
+		messageFields.push_back({ "data", event.data.substr(dataPos, lineEnd - dataPos) });
+		dataPos = lineEnd + (event.data.compare(lineEnd, 2, "\r\n") == 0 ? 2 : 1);
+	}
+
+	messageFields.push_back({ "data", event.data.substr(dataPos) });
 
 	if (event.retry.has_value()) {
 		messageFields.push_back({ "retry", std::to_string(event.retry.value()) });
-- 
2.43.0


From d915eb6308aeb969cd362ccb4d7b3d5b2bbd3e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 32/74] fix: identifier generator was used by concurrent
 connections without synchronisation

---
 core/crypto/uid.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/crypto/uid.cpp b/core/crypto/uid.cpp
index 02511de..bfd3a1b 100644
--- a/core/crypto/uid.cpp
+++ b/core/crypto/uid.cpp
@@ -2,6 +2,7 @@
 #include "../encoding/encoding.hpp"
 #include "../polyfill/polyfill.hpp"
 
+#include <mutex>
 #include <random>
 
 using namespace Lambda;
@@ -9,6 +10,7 @@ using namespace Lambda::Crypto;
 
 static auto rng_gen = std::mt19937(std::random_device{}());
 static auto rng_dist = std::uniform_int_distribution<int32_t>(1, std::numeric_limits<int32_t>::max());
+static std::mutex rng_mtx;
 
 ShortID::ShortID() {
 	this->update();
@@ -35,7 +37,11 @@ ShortID& ShortID::operator=(const ShortID& other) noexcept {
 }
 
 void ShortID::update() noexcept {
-	this->m_id.u32 = rng_dist(rng_gen);
+	{
+		//	the generator is shared by all the connections
+		std::lock_guard<std::mutex> lock(rng_mtx);
+		this->m_id.u32 = rng_dist(rng_gen);
+	}
 	this->m_serialize();
 }
 
-- 
2.43.0


From 166c16c90c8e18dc7916d1b847953793080c489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 33/74] fix: a writer waiting for a connection whose write had
 failed could still send into the broken stream

---
 core/network/tcp/connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 62f535f..c3b540f 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -97,7 +97,9 @@ void Connection::write(const std::vector<uint8_t>& data) {
 		const auto osError = GetOSErrorCode();
 		if (bytesSent < 0 && interruptedCodes.contains(osError)) continue;
 
-		//	a part of the data may be already out, so nothing sensible can be sent after it
+		//	a part of the data may be already out, so nothing sensible can be sent after it,
+		//	not even by a thread that is waiting for the lock
+		shutdown(handle, SD_BOTH);
 		lock.unlock();
 		this->end();
 		throw NetworkError("Network error while writing data", osError);
-- 
2.43.0


From 2fb388dc6d1f510319eb20a64a74eb8f739cf8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 34/74] fix: hasItem and size of a key-value store raced with
 its writers

---
 extra/kvstorage/interface.cpp | 2 ++
 extra/kvstorage/kvstorage.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 9f4ecd4..76dda86 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -30,6 +30,7 @@ StorageInterface::~StorageInterface() {
 }
 
 bool StorageInterface::hasItem(const std::string& key) const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.contains(key);
 }
 
@@ -75,5 +76,6 @@ void StorageInterface::clear() {
 }
 
 size_t StorageInterface::size() const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.size();
 }
diff --git a/extra/kvstorage/kvstorage.hpp b/extra/kvstorage/kvstorage.hpp
index 56e18b7..b971b76 100644
--- a/extra/kvstorage/kvstorage.hpp
+++ b/extra/kvstorage/kvstorage.hpp
@@ -27,7 +27,7 @@ namespace Lambda::Storage {
 		class StorageInterface {
 			protected:
 				Container data;
-				std::mutex mtlock;
+				mutable std::mutex mtlock;
 				Driver* driver = nullptr;
 
 			public:
-- 
2.43.0


From 3a12db0239ce09ff4d534811f0fe974d1cb54ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 35/74] fix: keys longer than 65535 bytes corrupted the
 key-value store file

---
 extra/kvstorage/driver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index d157c41..2265e59 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -5,6 +5,7 @@
 
 #include <filesystem>
 #include <vector>
+#include <limits>
 #include <iterator>
 #include <memory.h>
 
@@ -168,6 +169,14 @@ std::optional<Container> Driver::sync() {
 
 void Driver::handleTransaction(const Transaction& tractx) {
 
+	if (tractx.key && tractx.key->size() > std::numeric_limits<uint16_t>::max()) {
+		throw std::runtime_error("record key is too long");
+	}
+
+	if (tractx.value && tractx.value->size() > std::numeric_limits<uint32_t>::max()) {
+		throw std::runtime_error("record value is too long");
+	}
+
 	Driver::RecordHeader recordHeader {
 		Bits::storenormx(static_cast<std::underlying_type_t<TransactionType>>(tractx.type)),
 		Bits::storenormx(static_cast<uint16_t>(tractx.key ? tractx.key->size() : 0)),
-- 
2.43.0


From 2d9da4cb196aac1c2078642345b73f4c63d856f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 36/74] fix: failed key-value store writes went unnoticed and
 made the file unreadable

---
 extra/kvstorage/driver.cpp    | 34 ++++++++++++++++++++++++++++++++--
 extra/kvstorage/driver.hpp    |  4 ++++
 extra/kvstorage/interface.cpp |  7 ++++---
 3 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 2265e59..881eeda 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -135,12 +135,17 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 	dbHeader.version = Bits::storenormx(this->version);
 
 	this->m_stream.write((const char*)&dbHeader, sizeof(dbHeader));
+	this->m_size = sizeof(dbHeader);
 
 	if (this->m_init_data != nullptr) {
 		for (const auto& entry : *this->m_init_data) {
-			this->handleTransaction({ TransactionType::Put, &entry.first, &entry.second });
+			this->m_size += this->writeRecord({ TransactionType::Put, &entry.first, &entry.second });
 		}
 	}
+
+	if (!this->m_stream.flush()) {
+		throw std::runtime_error("Failed to write db file: " + this->m_filename);
+	}
 }
 
 Driver::~Driver() {
@@ -177,6 +182,18 @@ void Driver::handleTransaction(const Transaction& tractx) {
 		throw std::runtime_error("record value is too long");
 	}
 
+	const auto recordSize = this->writeRecord(tractx);
+
+	if (!this->m_stream.flush()) {
+		this->rollback();
+		throw std::runtime_error("Failed to write to the db file: " + this->m_filename);
+	}
+
+	this->m_size += recordSize;
+}
+
+size_t Driver::writeRecord(const Transaction& tractx) {
+
 	Driver::RecordHeader recordHeader {
 		Bits::storenormx(static_cast<std::underlying_type_t<TransactionType>>(tractx.type)),
 		Bits::storenormx(static_cast<uint16_t>(tractx.key ? tractx.key->size() : 0)),
@@ -203,5 +220,18 @@ void Driver::handleTransaction(const Transaction& tractx) {
 		this->m_stream.write(tractx.value->data(), tractx.value->size());
 	}
 
-	this->m_stream.flush();
+	return sizeof(recordHeader) + (tractx.key ? tractx.key->size() : 0) + (tractx.value ? tractx.value->size() : 0);
+}
+
+void Driver::rollback() noexcept {
+
+	//	a part of the record may have been written already, and nothing can be stored behind it
+	this->m_stream.close();
+	this->m_stream.setstate(std::ios::badbit);
+
+	std::error_code error;
+	std::filesystem::resize_file(this->m_filename, this->m_size, error);
+	if (error) return;
+
+	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::app | std::ios::binary);
 }
diff --git a/extra/kvstorage/driver.hpp b/extra/kvstorage/driver.hpp
index a586969..fda5817 100644
--- a/extra/kvstorage/driver.hpp
+++ b/extra/kvstorage/driver.hpp
@@ -16,6 +16,7 @@ namespace Lambda::Storage::KVStorage {
 			const std::string m_filename;
 			std::fstream m_stream;
 			Container* m_init_data = nullptr;
+			size_t m_size = 0;
 
 			struct DBBasicHeader {
 				char magic[sizeof(magicstring) - 1];
@@ -28,6 +29,9 @@ namespace Lambda::Storage::KVStorage {
 				uint32_t valueSize;
 			};
 
+			size_t writeRecord(const Transaction& tractx);
+			void rollback() noexcept;
+
 		public:
 			Driver(const std::string& filename);
 			~Driver();
diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 76dda86..61322c5 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -57,22 +57,23 @@ void StorageInterface::removeItem(const std::string& key) {
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
 	if (!this->data.contains(key)) return;
-	this->data.erase(key);
 
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Remove, &key });
 	}
+
+	this->data.erase(key);
 }
 
 void StorageInterface::clear() {
 
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
-	this->data.clear();
-
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Clear });
 	}
+
+	this->data.clear();
 }
 
 size_t StorageInterface::size() const noexcept {
-- 
2.43.0


From 1c0637f7bdd5a860578505f55af1933aa139f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 37/74] fix: key-value store could not be opened by a bare file
 name

---
 extra/kvstorage/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 881eeda..8b7b96a 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -121,7 +121,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 	}
 
 	auto dbfileParentDir = std::filesystem::path(this->m_filename).remove_filename();
-	if (!std::filesystem::exists(dbfileParentDir)) {
+	if (!dbfileParentDir.empty() && !std::filesystem::exists(dbfileParentDir)) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-- 
2.43.0


From 3c954f7cacc8711655ba26d9b50f25e2e4232322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 38/74] fix: a key-value store file shorter than its header was
 checked against uninitialised memory

---
 extra/kvstorage/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 8b7b96a..a8913ad 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -21,7 +21,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			throw std::runtime_error("Could not open \"" + this->m_filename + "\" for read");
 		}
 
-		DBBasicHeader dbHeader;
+		DBBasicHeader dbHeader {};
 		this->m_stream.read((char*)&dbHeader, sizeof(dbHeader));
 		dbHeader.version = Bits::storenormx(dbHeader.version);
 
-- 
2.43.0


From 116a081ed5db136e36af183e2a0a9a22114ce75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 39/74] fix: key-value store could not be opened after a crash
 in the middle of a write

---
 extra/kvstorage/driver.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index a8913ad..1fbc4b6 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -47,10 +47,8 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			this->m_stream.read((char*)&recordHeader, sizeof(recordHeader));
 			auto lastRead = this->m_stream.gcount();
 			
-			if (lastRead != sizeof(recordHeader)) {
-				if (!lastRead) break;
-				throw std::runtime_error("Corrupt db file: incomplete record header");
-			}
+			//	the last record may be incomplete if we've crashed while writing it
+			if (lastRead != sizeof(recordHeader)) break;
 
 			auto opationType = static_cast<TransactionType>(Bits::storenormx(recordHeader.type));
 			recordHeader.keySize = Bits::storenormx(recordHeader.keySize);
@@ -64,17 +62,13 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 					putKey.resize(recordHeader.keySize);
 
 					this->m_stream.read(putKey.data(), putKey.size());
-					if (this->m_stream.gcount() != recordHeader.keySize) {
-						throw std::runtime_error("Corrupt db file: incomplete record data");
-					}
+					if (this->m_stream.gcount() != recordHeader.keySize) break;
 
 					std::string putValue;
 					putValue.resize(recordHeader.valueSize);
 
 					this->m_stream.read(putValue.data(), putValue.size());
-					if (this->m_stream.gcount() != recordHeader.valueSize) {
-						throw std::runtime_error("Corrupt db file: incomplete record data");
-					}
+					if (this->m_stream.gcount() != recordHeader.valueSize) break;
 					
 					(*this->m_init_data)[putKey] = putValue;
 
@@ -90,9 +84,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 					removeKey.resize(recordHeader.keySize);
 
 					this->m_stream.read(removeKey.data(), removeKey.size());
-					if (this->m_stream.gcount() != recordHeader.keySize) {
-						throw std::runtime_error("Corrupt db file: incomplete record data");
-					}
+					if (this->m_stream.gcount() != recordHeader.keySize) break;
 
 					if (this->m_init_data->contains(removeKey)) {
 						this->m_init_data->erase(removeKey);
@@ -118,6 +110,11 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 					throw std::runtime_error("Corrupt db file: unknown TransactionType (" + std::to_string(recordHeader.type) + ")");
 			}
 		}
+
+		//	it's not the end of the log when something couldn't be read
+		if (this->m_stream.bad()) {
+			throw std::runtime_error("Could not read db file: " + this->m_filename);
+		}
 	}
 
 	auto dbfileParentDir = std::filesystem::path(this->m_filename).remove_filename();
-- 
2.43.0


From a7b78e8220f98ecbf2f72ca52eff5e1148da4bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 40/74] fix: a crash or write failure while opening a key-value
 store lost its data

---
 extra/kvstorage/driver.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 1fbc4b6..3123ee3 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -122,9 +122,12 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::binary);
+	//	the old file must stay intact until it's entirely rewritten
+	const auto tempFilename = this->m_filename + ".tmp";
+
+	this->m_stream = std::fstream(tempFilename, std::ios::out | std::ios::binary);
 	if (!this->m_stream.is_open()) {
-		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
+		throw std::runtime_error("Failed to open db file for write: " + tempFilename);
 	}
 
 	DBBasicHeader dbHeader;
@@ -140,8 +143,19 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 		}
 	}
 
-	if (!this->m_stream.flush()) {
-		throw std::runtime_error("Failed to write db file: " + this->m_filename);
+	this->m_stream.close();
+
+	if (!this->m_stream.good()) {
+		std::error_code error;
+		std::filesystem::remove(tempFilename, error);
+		throw std::runtime_error("Failed to write db file: " + tempFilename);
+	}
+
+	std::filesystem::rename(tempFilename, this->m_filename);
+
+	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::app | std::ios::binary);
+	if (!this->m_stream.is_open()) {
+		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
 	}
 }
 
-- 
2.43.0


From 1ee2785d8b5d03841c00766bee3542799f1f397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 41/74] fix: moving a virtual file lost it when moved onto
 itself and broke the totals when it failed or replaced another file

---
 extra/vfs/interface.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index c1161d5..0cb0935 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -84,8 +84,6 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 	const auto pathNormalized = Strings::toLowerCase(oldPath);
 	const auto newPathNormalized = Strings::toLowerCase(newPath);
 
-	this->m_info.totalSize += (newPath.size() - oldPath.size());
-	
 	std::lock_guard <std::mutex> lock(this->m_mtx);
 
 	const auto itrOld = this->m_data.find(pathNormalized);
@@ -93,8 +91,19 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 		throw std::filesystem::filesystem_error("Virtual file not found", oldPath, std::error_code(2L, std::generic_category()));
 	}
 
-	this->m_data[newPathNormalized] = itrOld->second;
+	if (pathNormalized == newPathNormalized) return;
+
+	const auto itrNew = this->m_data.find(newPathNormalized);
+	if (itrNew != this->m_data.end()) {
+		this->m_info.totalSize -= (itrNew->first.size() + itrNew->second.buffer.size());
+		this->m_info.totalFiles--;
+	}
+
+	this->m_info.totalSize += (newPath.size() - oldPath.size());
+
+	const auto moved = itrOld->second;
 	this->m_data.erase(itrOld);
+	this->m_data[newPathNormalized] = moved;
 }
 
 std::vector<VirtualFileInfo> Interface::listAll() noexcept {
-- 
2.43.0


From 8264deb04b2430f93a9769d73950999069cfa958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 42/74] fix: creation and modification times of virtual files
 were reported swapped

---
 extra/vfs/interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 0cb0935..b2039c2 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -115,8 +115,8 @@ std::vector<VirtualFileInfo> Interface::listAll() noexcept {
 	for (const auto& entry : this->m_data) {
 		result.push_back({
 			entry.first,
-			entry.second.created,
 			entry.second.modified,
+			entry.second.created,
 			entry.second.buffer.size()
 		});
 	}
@@ -137,8 +137,8 @@ std::optional<VirtualFileInfo> Interface::fileInfo(const std::string& path) noex
 
 	VirtualFileInfo info {
 		itr->first,
-		itr->second.created,
 		itr->second.modified,
+		itr->second.created,
 		itr->second.buffer.size()
 	};
 
-- 
2.43.0


From 22842b980e3871b0f0f503d972305377a425881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 43/74] fix: files loaded from a virtual file system image were
 missing in its totals

---
 extra/vfs/interface.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index b2039c2..bdd36f1 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -180,6 +180,15 @@ void Interface::loadSnapshot(const std::string& path) {
 			};
 
 			std::lock_guard<std::mutex> lock(this->m_mtx);
+
+			const auto itr = this->m_data.find(pathNormalized);
+			if (itr != this->m_data.end()) {
+				this->m_info.totalSize -= (itr->first.size() + itr->second.buffer.size());
+				this->m_info.totalFiles--;
+			}
+
+			this->m_info.totalSize += pathNormalized.size() + vfsentry.buffer.size();
+			this->m_info.totalFiles++;
 			this->m_data[pathNormalized] = vfsentry;
 		}
 
-- 
2.43.0


From a5642528ba21a92ea18ff0c6ddf63973a6604d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 44/74] fix: totals of a virtual file system were read without
 synchronisation

---
 extra/vfs/interface.cpp | 3 ++-
 extra/vfs/vfs.hpp       | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index bdd36f1..396c9c0 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -242,6 +242,7 @@ void Interface::saveSnapshot(const std::string& path) {
 	}
 }
 
-const VFSInfo& Interface::stats() const noexcept {
+VFSInfo Interface::stats() const noexcept {
+	std::lock_guard<std::mutex> lock(this->m_mtx);
 	return this->m_info;
 }
diff --git a/extra/vfs/vfs.hpp b/extra/vfs/vfs.hpp
index 4ae5d8b..336b2bb 100644
--- a/extra/vfs/vfs.hpp
+++ b/extra/vfs/vfs.hpp
@@ -39,7 +39,7 @@ namespace Lambda {
 		class Interface {
 			private:
 				std::unordered_map <std::string, StoredValue> m_data;
-				std::mutex m_mtx;
+				mutable std::mutex m_mtx;
 				VFSInfo m_info;
 
 			public:
@@ -89,7 +89,7 @@ namespace Lambda {
 				*/
 				void saveSnapshot(const std::string& path);
 
-				const VFSInfo& stats() const noexcept;
+				VFSInfo stats() const noexcept;
 		};
 	};
 
-- 
2.43.0


From 9521e5adb6e505ed0877df950a70c84ebecda72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 45/74] fix: virtual file system images with unsupported
 extensions were accepted

---
 extra/vfs/interface.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 396c9c0..cbd6cf9 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -149,10 +149,9 @@ template <std::size_t N>
 bool isSupportedFileExtension(const std::string& filepath, const std::array<std::string, N>& extensions) {
 
 	const auto pathNormalized = Strings::toLowerCase(filepath);
-	const auto pathExtension = std::filesystem::path(pathNormalized).extension();
 
-	for (const auto& item : pathExtension) {
-		if (item == pathExtension) return true;
+	for (const auto& item : extensions) {
+		if (pathNormalized.ends_with(item)) return true;
 	}
 
 	return false;
-- 
2.43.0


From b5381ccecbb72d931b854b9b92dd465d59a68746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 46/74] fix: virtual file system image worker raced with its
 caller on the queue and on the future that was being assigned

---
 extra/vfs/formats.hpp   |  8 +++++--
 extra/vfs/interface.cpp |  8 +++----
 extra/vfs/syncqueue.cpp | 46 ++++++++++++++++++++++-------------------
 3 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/extra/vfs/formats.hpp b/extra/vfs/formats.hpp
index 75708fa..fdbf901 100644
--- a/extra/vfs/formats.hpp
+++ b/extra/vfs/formats.hpp
@@ -7,6 +7,8 @@
 #include <vector>
 #include <array>
 #include <future>
+#include <atomic>
+#include <mutex>
 #include <shared_mutex>
 
 namespace Lambda::VFS::Formats {
@@ -14,11 +16,13 @@ namespace Lambda::VFS::Formats {
 	class SyncQueue {
 		private:
 			std::vector<VirtualFile> m_queue;
-			std::mutex m_queue_mtx;
+			mutable std::mutex m_queue_mtx;
 			std::shared_mutex m_future_mtx;
-			bool m_done = false;
+			std::atomic<bool> m_done = false;
 			std::future<void>* m_watch_future = nullptr;
 
+			bool watcherExited();
+
 		public:
 			SyncQueue& operator=(const SyncQueue& other) = delete;
 			SyncQueue& operator=(SyncQueue&& other) noexcept;
diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index cbd6cf9..1196121 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -161,11 +161,11 @@ void Interface::loadSnapshot(const std::string& path) {
 
 	Formats::SyncQueue readerQueue;
 	std::future<void> readerPromise;
-	readerQueue.setPromiseExitWatcher(&readerPromise);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-		readerPromise = std::async(Formats::Tar::importArchive, path, std::ref(readerQueue));
+		readerPromise = std::async(std::launch::async, Formats::Tar::importArchive, path, std::ref(readerQueue));
+		readerQueue.setPromiseExitWatcher(&readerPromise);
 
 		while (readerQueue.await()) {
 			
@@ -208,11 +208,11 @@ void Interface::saveSnapshot(const std::string& path) {
 
 	Formats::SyncQueue writerQueue;
 	std::future<void> writerPromise;
-	writerQueue.setPromiseExitWatcher(&writerPromise);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-		writerPromise = std::async(Formats::Tar::exportArchive, path, std::ref(writerQueue));
+		writerPromise = std::async(std::launch::async, Formats::Tar::exportArchive, path, std::ref(writerQueue));
+		writerQueue.setPromiseExitWatcher(&writerPromise);
 
 		std::lock_guard<std::mutex> lock(this->m_mtx);
 
diff --git a/extra/vfs/syncqueue.cpp b/extra/vfs/syncqueue.cpp
index c2dd5af..770238d 100644
--- a/extra/vfs/syncqueue.cpp
+++ b/extra/vfs/syncqueue.cpp
@@ -7,7 +7,7 @@ using namespace Lambda::VFS;
 using namespace Lambda::VFS::Formats;
 
 SyncQueue& SyncQueue::operator=(SyncQueue&& other) noexcept {
-	this->m_done = other.m_done;
+	this->m_done = other.m_done.load();
 	this->m_queue = std::move(other.m_queue);
 	return *this;
 }
@@ -19,48 +19,51 @@ void SyncQueue::push(VirtualFile&& item) {
 
 VirtualFile SyncQueue::next() {
 
+	std::lock_guard lock(this->m_queue_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("cannot get next item from an empty FSQueue");
 	}
 
-	std::lock_guard lock(this->m_queue_mtx);
-
 	VirtualFile temp = this->m_queue.front();
 	this->m_queue.erase(this->m_queue.begin());
 
 	return temp;
 }
 
-bool SyncQueue::await() {
+bool SyncQueue::watcherExited() {
 
-	std::shared_lock lock(this->m_future_mtx);
+	std::future<void>* watch = nullptr;
 
-	while (!this->m_done && !this->m_queue.size()) {
+	{
+		std::shared_lock lock(this->m_future_mtx);
+		watch = this->m_watch_future;
+	}
 
-		if (this->m_watch_future != nullptr) {
-			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
-		} else {
-			std::this_thread::sleep_for(std::chrono::milliseconds(1));
-		}
+	if (watch == nullptr) {
+		std::this_thread::sleep_for(std::chrono::milliseconds(1));
+		return false;
 	}
 
-	return this->m_queue.size();
+	return watch->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready;
 }
 
-bool SyncQueue::awaitEmpty() {
+bool SyncQueue::await() {
+
+	while (!this->m_done && this->empty()) {
+		if (this->watcherExited()) break;
+	}
 
-	std::shared_lock lock(this->m_future_mtx);
+	return !this->empty();
+}
 
-	while (!this->m_done && this->m_queue.size()) {
+bool SyncQueue::awaitEmpty() {
 
-		if (this->m_watch_future != nullptr) {
-			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
-		} else {
-			std::this_thread::sleep_for(std::chrono::milliseconds(1));
-		}
+	while (!this->m_done && !this->empty()) {
+		if (this->watcherExited()) break;
 	}
 
-	return !this->m_queue.size();
+	return this->empty();
 }
 
 void SyncQueue::close() noexcept {
@@ -72,6 +75,7 @@ bool SyncQueue::done() const noexcept {
 }
 
 bool SyncQueue::empty() const noexcept {
+	std::lock_guard lock(this->m_queue_mtx);
 	return this->m_queue.size() == 0;
 }
 
-- 
2.43.0


From d64dafc4a6c402400bb208bd60899c35ea634125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 47/74] fix: tar images with non-ASCII file names could not be
 loaded back

---
 extra/vfs/format_tar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 704e7a6..766c044 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -360,7 +360,7 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 			continue;
 		}
 
-		checksumSigned += *((int8_t*)(&posixHeader) + i);
+		checksumSigned += *((uint8_t*)(&posixHeader) + i);
 	}
 
 	encodeTarInt(posixHeader.chksum, sizeof(posixHeader.chksum), checksumSigned);
-- 
2.43.0


From 379073346e5391041fd0b34fc876e05ba5ef2f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 48/74] fix: tar contents of a multiple of 512 bytes were
 padded with an extra block

---
 extra/vfs/format_tar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 766c044..3c12986 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -41,7 +41,7 @@ static const uint16_t tarBlockSize = 512;
 static_assert(sizeof(TarPosixHeader) == tarBlockSize);
 
 size_t getPaddingSize(size_t contentSize) {
-	if (contentSize == 0 || contentSize == tarBlockSize) return 0;
+	if (contentSize % tarBlockSize == 0) return 0;
 	return (tarBlockSize * ((contentSize / tarBlockSize) + 1)) - contentSize;
 }
 
-- 
2.43.0


From e2ad7086c9cc606270848824558cbfa3d4c7c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 49/74] fix: tar header version was written past its field

---
 extra/vfs/format_tar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 3c12986..14b2b0a 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -338,7 +338,7 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 	memset(&posixHeader, 0, sizeof(posixHeader));
 
 	strcpy(posixHeader.magic, "ustar");
-	strcpy(posixHeader.version, "00");
+	memcpy(posixHeader.version, "00", sizeof(posixHeader.version));
 	posixHeader.typeflag = static_cast<std::underlying_type_t<EntryType>>(header.typeflag);
 
 	strncpy(posixHeader.mode, "0100777", sizeof(posixHeader.mode));
-- 
2.43.0


From ebefc08ea665c1243a4c2ce9e82fe03fbc050e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 50/74] fix: failed writes of virtual file system images went
 unnoticed

---
 extra/vfs/format_tar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 14b2b0a..7dbefb2 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -467,6 +467,10 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 	}
 
 	writer.endStream();
+
+	if (!outfile.good()) {
+		throw std::filesystem::filesystem_error("Could not write file", path, std::error_code(5L, std::generic_category()));
+	}
 }
 
 void Tar::importArchive(const std::string& path, SyncQueue& queue) {
-- 
2.43.0


From 080e721a032f8aa87fbe419e73d09c32740077e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 51/74] fix: virtual files with names that tar cannot hold
 silently damaged the image

---
 extra/vfs/format_tar.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 7dbefb2..c88b5f5 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -442,6 +442,11 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 
 		auto nextFile = queue.next();
 
+		//	an empty name would read as the end of the archive, and a null character as the end of the name
+		if (nextFile.name.empty() || nextFile.name.find('\0') != std::string::npos) {
+			throw std::runtime_error("File name cannot be stored in a tar archive: \"" + nextFile.name + "\"");
+		}
+
 		if (nextFile.name.size() >= sizeof(TarPosixHeader::name)) {
 
 			TarBasicHeader longlinkHeader {
-- 
2.43.0


From 1f13e6f3b2c235404de9238923b385705a515c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 52/74] fix: compressed images that inflate in small steps
 failed to load, and cut ones were read out of bounds

---
 extra/vfs/format_tar.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index c88b5f5..31b600d 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -83,16 +83,15 @@ class InflatableReader {
 				throw std::runtime_error("InflatableReader::m_gz_strm is null");
 			}
 
-			if (this->m_buff.size() >= expectedSize || this->m_readstream.eof() || this->m_gz_strm->isDone()) {
-				return;
-			}
+			while (this->m_buff.size() < expectedSize && this->m_readstream.good() && !this->m_gz_strm->isDone()) {
 
-			std::vector<uint8_t> tempBuff(expectedSize);
-			this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-			tempBuff.resize(this->m_readstream.gcount());
+				std::vector<uint8_t> tempBuff(bufferSize);
+				this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
+				tempBuff.resize(this->m_readstream.gcount());
 
-			auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
-			this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+				auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
+				this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+			}
 		}
 
 	public:
@@ -150,7 +149,8 @@ class InflatableReader {
 				case TarCompression::Gzip: {
 
 					this->m_decompressToContain(skipSize);
-					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + skipSize);
+					const auto skipAvailable = std::min(skipSize, this->m_buff.size());
+					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + skipAvailable);
 
 				} break;
 				
-- 
2.43.0


From 06c7472f3884b5edc4c97889b576a2c9d2b08848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 53/74] fix: a corrupted entry size made the image loader
 allocate that much memory

---
 extra/vfs/format_tar.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 31b600d..842b7a1 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -72,7 +72,7 @@ class InflatableReader {
 
 		Compress::GzipStreamDecompressor* m_gz_strm = nullptr;
 
-		static const size_t bufferSize = 2 * 1024 * 1024;
+		static constexpr size_t bufferSize = 2 * 1024 * 1024;
 
 		/**
 		 * Read end decompress enough data to contain expectedSize
@@ -128,11 +128,18 @@ class InflatableReader {
 						return {};
 					}
 
-					std::vector<uint8_t> tempBuff(expectedSize);
-					this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
+					std::vector<uint8_t> tempBuff;
 
-					const auto bytesRead = this->m_readstream.gcount();
-					return std::vector<uint8_t>(tempBuff.begin(), tempBuff.begin() + bytesRead);
+					while (tempBuff.size() < expectedSize && this->m_readstream.good()) {
+
+						const auto bytesBefore = tempBuff.size();
+						tempBuff.resize(bytesBefore + std::min(expectedSize - bytesBefore, bufferSize));
+						this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data() + bytesBefore), tempBuff.size() - bytesBefore);
+
+						tempBuff.resize(bytesBefore + this->m_readstream.gcount());
+					}
+
+					return tempBuff;
 				};
 			}
 		}
@@ -255,6 +262,8 @@ class PlainFSReader {
 	private:
 		std::ifstream& m_readstream;
 
+		static constexpr size_t bufferSize = 2 * 1024 * 1024;
+
 	public:
 		PlainFSReader(std::ifstream& readStream) : m_readstream(readStream) {}
 
@@ -264,11 +273,18 @@ class PlainFSReader {
 				return {};
 			}
 
-			std::vector<uint8_t> tempBuff(expectedSize);
-			this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
+			std::vector<uint8_t> tempBuff;
+
+			while (tempBuff.size() < expectedSize && this->m_readstream.good()) {
+
+				const auto bytesBefore = tempBuff.size();
+				tempBuff.resize(bytesBefore + std::min(expectedSize - bytesBefore, bufferSize));
+				this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data() + bytesBefore), tempBuff.size() - bytesBefore);
+
+				tempBuff.resize(bytesBefore + this->m_readstream.gcount());
+			}
 
-			const auto bytesRead = this->m_readstream.gcount();
-			return std::vector<uint8_t>(tempBuff.begin(), tempBuff.begin() + bytesRead);
+			return tempBuff;
 		}
 
 		std::string readTextChunk(size_t expectedSize) {
-- 
2.43.0


From 9673f6e18119d9e79e6c9777b146ecad5590c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 54/74] fix: contents of unsupported tar entries were read as
 headers

---
 extra/vfs/format_tar.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 842b7a1..16d9a79 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -431,7 +431,12 @@ TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 	header.typeflag = static_cast<EntryType>(posixHeader->typeflag);
 
 	//	decode file size
-	header.size = parseTarInt(posixHeader->size, sizeof(posixHeader->size));
+	const auto entrySize = parseTarInt(posixHeader->size, sizeof(posixHeader->size));
+	if (entrySize < 0) {
+		throw std::runtime_error("Invalid tar entry size");
+	}
+
+	header.size = entrySize;
 
 	//	get last modification date
 	header.modified = parseTarInt(posixHeader->mtime, sizeof(posixHeader->mtime));
@@ -565,7 +570,12 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 
 			} break;
 			
-			default: break;
+			default: {
+
+				reader.skipNext(nextHeader.size + getPaddingSize(nextHeader.size));
+				nextLongLink = std::nullopt;
+
+			} break;
 		}
 	}
 
-- 
2.43.0


From 83c95be529adc0317b65c152ecc0a648bf41aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 55/74] fix: ustar path prefixes and legacy file entries were
 ignored when loading an image

---
 extra/vfs/format_tar.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 16d9a79..dee4724 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -47,6 +47,7 @@ size_t getPaddingSize(size_t contentSize) {
 
 enum struct EntryType : char {
 	Normal = '0',
+	NormalLegacy = '\0',
 	LongLink = 'L',
 	Directory = '5'
 };
@@ -428,6 +429,12 @@ TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 	const size_t nameFieldLength = nameFieldFit ? strlen(posixHeader->name) : sizeof(posixHeader->name);
 
 	header.name = std::string(posixHeader->name, nameFieldLength);
+
+	//	long paths may be split in two
+	if (posixHeader->prefix[0]) {
+		header.name = std::string(posixHeader->prefix, strnlen(posixHeader->prefix, sizeof(posixHeader->prefix))) + '/' + header.name;
+	}
+
 	header.typeflag = static_cast<EntryType>(posixHeader->typeflag);
 
 	//	decode file size
@@ -545,6 +552,7 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 
 			} break;
 
+			case EntryType::NormalLegacy:
 			case EntryType::Normal: {
 
 				const auto content = reader.readChunk(nextHeader.size);
-- 
2.43.0


From 28574af8ada54adb8ae9e5b335546638113f4cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 56/74] fix: read errors were taken for the end of a virtual
 file system image

---
 extra/vfs/format_tar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index dee4724..dc440f6 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -587,5 +587,9 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 		}
 	}
 
+	if (infile.bad()) {
+		throw std::filesystem::filesystem_error("Could not read file", path, std::error_code(5L, std::generic_category()));
+	}
+
 	queue.close();
 }
-- 
2.43.0


From ce271cd5d281e6bdc5b93600e0ea2d5251fd17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 57/74] fix: requests with over-long path names terminated the
 static file server

---
 extra/staticserver/staticserver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 34deef5..f5577d8 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -75,7 +75,8 @@ std::optional<std::string> StaticServer::resolvePath(const std::string& pathname
 	auto basePath = this->m_root + (pathname.starts_with('/') ? pathname : ('/' + pathname));
 
 	auto checkAvailability = [](const std::string& fspath) {
-		return std::filesystem::exists(fspath) && std::filesystem::is_regular_file(fspath);
+		std::error_code fserror;
+		return std::filesystem::is_regular_file(fspath, fserror);
 	};
 
 	if (checkAvailability(basePath)) {
@@ -128,7 +129,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	}
 
 	auto& resolvedFilePath = resolvedFile.value();
-	auto extension = std::filesystem::relative(resolvedFilePath).extension();
+	auto extension = std::filesystem::path(resolvedFilePath).extension();
 	auto mimetype = Content::getExtMimetype(extension.generic_string());
 
 	auto fileContent = readBinaryFileSync(resolvedFilePath);
-- 
2.43.0


From eff21672cbf072eb1bbe4a9095514e415c50cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 58/74] fix: static file server ignored everything after a null
 character in a path

---
 extra/staticserver/staticserver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index f5577d8..8e86446 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -72,6 +72,11 @@ StaticServer::StaticServer(const std::string& rootDir) {
 
 std::optional<std::string> StaticServer::resolvePath(const std::string& pathname) const noexcept {
 
+	//	file system calls would only see the part before a null character
+	if (pathname.find('\0') != std::string::npos) {
+		return std::nullopt;
+	}
+
 	auto basePath = this->m_root + (pathname.starts_with('/') ? pathname : ('/' + pathname));
 
 	auto checkAvailability = [](const std::string& fspath) {
-- 
2.43.0


From cf71a36f266d215d16088f52990e64e064afaf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 59/74] fix: static file server answered with an empty file
 when it could not open it

---
 extra/staticserver/staticserver.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 8e86446..aea4f62 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -12,9 +12,9 @@ using namespace Lambda;
 using namespace Lambda::HTTP;
 using namespace Lambda::HTML;
 
-std::vector<uint8_t> readBinaryFileSync(const std::string& filepath) {
+std::optional<std::vector<uint8_t>> readBinaryFileSync(const std::string& filepath) {
 	auto readablefile = std::fstream(filepath, std::ios::in | std::ios::binary);
-	if (!readablefile.is_open()) return {};
+	if (!readablefile.is_open()) return std::nullopt;
 	return std::vector<uint8_t>(std::istreambuf_iterator<char>(readablefile), {});
 }
 
@@ -124,8 +124,13 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	auto normalizedPathname = flattenPathName(pathname);
 	auto resolvedFile = this->resolvePath(normalizedPathname);
 
+	std::optional<std::vector<uint8_t>> fileContent;
+	if (resolvedFile.has_value()) {
+		fileContent = readBinaryFileSync(resolvedFile.value());
+	}
+
 	//	return 404
-	if (!resolvedFile.has_value()) {
+	if (!fileContent.has_value()) {
 		return Response(404, renderTemplate(Templates::servicePage, {
 			{ "svcpage_statuscode", "404" },
 			{ "svcpage_statustext", "Resource not found" },
@@ -137,9 +142,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	auto extension = std::filesystem::path(resolvedFilePath).extension();
 	auto mimetype = Content::getExtMimetype(extension.generic_string());
 
-	auto fileContent = readBinaryFileSync(resolvedFilePath);
-
 	return Response(200, {
 		{ "content-type", mimetype }
-	}, fileContent);
+	}, fileContent.value());
 }
-- 
2.43.0


From 8152d6aa660042d9baa88d9ddc8f9a41ee49c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 60/74] fix: a read error terminated the static file server

---
 extra/staticserver/staticserver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index aea4f62..8f9bb47 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -15,7 +15,11 @@ using namespace Lambda::HTML;
 std::optional<std::vector<uint8_t>> readBinaryFileSync(const std::string& filepath) {
 	auto readablefile = std::fstream(filepath, std::ios::in | std::ios::binary);
 	if (!readablefile.is_open()) return std::nullopt;
-	return std::vector<uint8_t>(std::istreambuf_iterator<char>(readablefile), {});
+	try {
+		return std::vector<uint8_t>(std::istreambuf_iterator<char>(readablefile), {});
+	} catch (const std::ios_base::failure& err) {
+		return std::nullopt;
+	}
 }
 
 std::string StaticServer::flattenPathName(std::string urlpath) const noexcept {
-- 
2.43.0


From ca07317d9b5f42391479d66f432def7feb52a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 61/74] fix: bytes behind the end of a tar entry name were
 taken for a part of it

---
 extra/vfs/format_tar.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index dc440f6..9197df5 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -425,8 +425,7 @@ TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 
 	TarBasicHeader header;
 
-	const bool nameFieldFit = posixHeader->name[sizeof(posixHeader->name) - 1] == 0;
-	const size_t nameFieldLength = nameFieldFit ? strlen(posixHeader->name) : sizeof(posixHeader->name);
+	const size_t nameFieldLength = strnlen(posixHeader->name, sizeof(posixHeader->name));
 
 	header.name = std::string(posixHeader->name, nameFieldLength);
 
-- 
2.43.0


From bf7c843379a03cb1d85237c4995a53e6afe6f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 62/74] fix: a damaged key-value store file leaked the records
 read before the damage

---
 extra/kvstorage/driver.cpp | 9 ++-------
 extra/kvstorage/driver.hpp | 3 ++-
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 3123ee3..76a66e9 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -39,7 +39,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			throw std::runtime_error("Unsupported db version");
 		}
 
-		this->m_init_data = new Container();
+		this->m_init_data = std::make_unique<Container>();
 
 		while (this->m_stream.is_open() && !this->m_stream.eof()) {
 
@@ -163,10 +163,6 @@ Driver::~Driver() {
 
 	this->m_stream.flush();
 	this->m_stream.close();
-	
-	if (this->m_init_data) {
-		delete this->m_init_data;
-	}
 }
 
 std::optional<Container> Driver::sync() {
@@ -177,8 +173,7 @@ std::optional<Container> Driver::sync() {
 
 	auto temp = std::move(*this->m_init_data);
 
-	delete this->m_init_data;
-	this->m_init_data = nullptr;
+	this->m_init_data.reset();
 
 	return temp;
 }
diff --git a/extra/kvstorage/driver.hpp b/extra/kvstorage/driver.hpp
index fda5817..fdcd8cd 100644
--- a/extra/kvstorage/driver.hpp
+++ b/extra/kvstorage/driver.hpp
@@ -5,6 +5,7 @@
 #include "./kvstorage.hpp"
 
 #include <fstream>
+#include <memory>
 #include <optional>
 
 namespace Lambda::Storage::KVStorage {
@@ -15,7 +16,7 @@ namespace Lambda::Storage::KVStorage {
 
 			const std::string m_filename;
 			std::fstream m_stream;
-			Container* m_init_data = nullptr;
+			std::unique_ptr<Container> m_init_data;
 			size_t m_size = 0;
 
 			struct DBBasicHeader {
-- 
2.43.0


From 09b82f263080df945b9d3e3924782e73446b0d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:30 +0000
Subject: [PATCH 63/74] fix: the fragment of a request target is not part of
 its path or query

---
 core/http/transport_v1.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 1d08e1b..d9061e6 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -107,9 +107,9 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	//	parse request url
-	const auto urlSearchPos = requestUrlString.find('?');
 	//	I'll leave it here for redundancy
-	const auto urlHashPos = requestUrlString.find('#', urlSearchPos != std::string::npos ? urlSearchPos : 0);
+	const auto urlHashPos = requestUrlString.find('#');
+	const auto urlSearchPos = requestUrlString.substr(0, urlHashPos).find('?');
 	const auto pathnameEndPos = std::min({ urlSearchPos, urlHashPos });
 
 	next.url.pathname = pathnameEndPos == std::string::npos ?
@@ -117,10 +117,7 @@ bool TransportContextV1::awaitNext() {
 		(pathnameEndPos ? requestUrlString.substr(0, pathnameEndPos) : "/");
 
 	if (urlSearchPos != std::string::npos) {
-		auto trimSize = urlHashPos != std::string::npos ? (urlHashPos - urlSearchPos - 1) : 0;
-		next.url.searchParams = trimSize ?
-			requestUrlString.substr(urlSearchPos, trimSize + 1) :
-			requestUrlString.substr(urlSearchPos);
+		next.url.searchParams = requestUrlString.substr(urlSearchPos, urlHashPos - urlSearchPos);
 	}
 
 	const auto hostHeader = next.headers.get("host");
-- 
2.43.0


From 68bf200f37288dcc5cb789633fddb54a76f3d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 64/74] fix: a connection limit of zero (no limit) was refused

---
 core/server/instance.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index cc21213..58ba632 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -27,7 +27,8 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 		syncout.log("[Service] Warning: fast port reuse enabled");
 	}
 
-	if (init.service.maxConnections < ServiceOptions::minConnections) {
+	//	zero means no limit
+	if (init.service.maxConnections && init.service.maxConnections < ServiceOptions::minConnections) {
 		throw Lambda::Error("ServiceOptions::maxConnections value is lower than allowed by minConnections");
 	}
 
-- 
2.43.0


From b656d9c6fd777433f6899498f5364d60f3297aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 65/74] fix: waiting for a server could end before its port was
 released, and destroying it then while another thread was in shutdown

---
 core/network/tcp/listener.cpp |  3 +++
 core/network/tcp/listener.hpp |  1 +
 core/server/instance.cpp      | 20 ++++++++++++--------
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index d486033..401b619 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -125,6 +125,9 @@ const ListenConfig& ListenSocket::getConfig() const noexcept {
 
 void ListenSocket::stop() noexcept {
 
+	//	no call returns before the descriptor is released, whichever of them does that
+	std::lock_guard<std::mutex> stopLock(this->m_stop_mtx);
+
 	const auto tempHandle = this->hSocket.exchange(INVALID_SOCKET);
 	if (tempHandle == INVALID_SOCKET) return;
 
diff --git a/core/network/tcp/listener.hpp b/core/network/tcp/listener.hpp
index dd8d9d3..6abd3fd 100644
--- a/core/network/tcp/listener.hpp
+++ b/core/network/tcp/listener.hpp
@@ -20,6 +20,7 @@ namespace Lambda::Network::TCP {
 		protected:
 			std::atomic<SockHandle> hSocket;
 			std::mutex m_accept_mtx;
+			std::mutex m_stop_mtx;
 			ListenConfig config;
 
 		public:
diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 58ba632..30a635c 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -37,13 +37,13 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 		//	a failure to take one connection must not take the whole service down
 		const auto acceptNext = [&]() -> std::optional<Network::TCP::Connection> {
 
-			while (!this->m_terminated && this->listener.active()) {
+			while (this->listener.active()) {
 
 				try {
 					return this->listener.acceptConnection();
 				} catch (const std::exception& err) {
 
-					if (this->m_terminated || !this->listener.active()) break;
+					if (!this->listener.active()) break;
 
 					syncout.error({ "[Service] Failed to accept a connection:", err.what() });
 					std::this_thread::sleep_for(100ms);
@@ -71,14 +71,14 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 			const auto& svcmaxconn = this->config.service.maxConnections;
 			const auto gcThreshold = svcmaxconn * 0.75;
 
-			while (!this->m_terminated && this->listener.active()) {
+			while (this->listener.active()) {
 
 				auto nextConn = acceptNext();
 				if (!nextConn.has_value()) break;
 
 				//	terminate() walks this list too
 				std::lock_guard<std::mutex> lock(this->m_connections_mtx);
-				if (this->m_terminated) break;
+				if (this->m_terminated) continue;
 
 				if (svcmaxconn && (this->m_connections_count >= svcmaxconn)) {
 
@@ -115,7 +115,7 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 
 		} else {
 
-			while (!this->m_terminated && this->listener.active()) {
+			while (this->listener.active()) {
 
 				auto nextConn = acceptNext();
 				if (!nextConn.has_value()) break;
@@ -148,9 +148,6 @@ void LambdaInstance::terminate() {
 	//	reqeust service worker to exit
 	this->m_terminated = true;
 	
-	//	close listen socket
-	this->listener.stop();
-
 	//	Request all connection workers to exit
 	if (this->config.service.useThreadList) {
 		std::lock_guard<std::mutex> lock(this->m_connections_mtx);
@@ -158,6 +155,10 @@ void LambdaInstance::terminate() {
 			worker.shutdownFlag = true;
 		}
 	}
+
+	//	close listen socket
+	//	It comes last: with it closed the service worker exits, and whoever was waiting for that may destroy the instance
+	this->listener.stop();
 }
 
 void LambdaInstance::awaitFinished() {
@@ -166,6 +167,9 @@ void LambdaInstance::awaitFinished() {
 	if (this->serviceWorker.valid())
 		this->serviceWorker.get();
 
+	//	and the port has been released
+	this->listener.stop();
+
 	//	Wait until all connection workers done
 	if (this->config.service.useThreadList) {
 		for (auto& item : this->m_connections) {
-- 
2.43.0


From 1d4f13fbcc43067f3418297abc3a5dafb789dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 66/74] fix: honour connection options that come in a repeated
 header

---
 core/http/transport_v1.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index d9061e6..ffe4de4 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -26,6 +26,16 @@ static const std::initializer_list<std::string> compressibleTypes = {
 	"text", "html", "json", "xml", "javascript"
 };
 
+//	connection options may be spread over several headers
+static std::string connectionOptions(const Headers& headers) {
+	std::string result;
+	for (const auto& value : headers.getAll("connection")) {
+		if (result.size()) result.append(", ");
+		result.append(Strings::toLowerCase(value));
+	}
+	return result;
+}
+
 TransportContextV1::TransportContextV1(
 	Network::TCP::Connection& connInit,
 	const TransportOptions& optsInit
@@ -150,7 +160,7 @@ bool TransportContextV1::awaitNext() {
 
 	if (this->m_topts.reuseConnections) {
 
-		const auto connectionHeader = Strings::toLowerCase(next.headers.get("connection"));
+		const auto connectionHeader = connectionOptions(next.headers);
 
 		switch (this->m_keepalive) {
 
@@ -349,7 +359,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	responseHeaders.set("x-request-id", this->m_id.toString() + '-' + responsectx.id.toString());
 
 	//	set connection header to acknowledge keep-alive mode
-	const auto responseConnectionHeader = Strings::toLowerCase(responseHeaders.get("connection"));
+	const auto responseConnectionHeader = connectionOptions(responseHeaders);
 	if (responseConnectionHeader.size()) {
 		this->m_keepalive = Strings::includes(responseConnectionHeader, "close") ?
 			KeepAliveStatus::Close : KeepAliveStatus::KeepAlive;
-- 
2.43.0


From c678c00da073172e39526a95644005e3d6f48046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:18 +0000
Subject: [PATCH 67/74] fix: refuse websocket handshakes without a connection
 option or of another protocol version

---
 core/websocket/websocket.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index 50d3621..b296d56 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -38,10 +38,22 @@ WebsocketContext::WebsocketContext(WebsocketInit init) :
 	auto headerUpgrade = Strings::toLowerCase(request.headers.get("Upgrade"));
 	auto headerWsKey = request.headers.get("Sec-WebSocket-Key");
 
-	if (headerUpgrade != "websocket" || !headerWsKey.size()) {
+	//	the connection option that belongs to the upgrade header, it may be one of many
+	bool connectionUpgrade = false;
+	for (const auto& header : request.headers.getAll("Connection")) {
+		for (const auto& option : Strings::split(Strings::toLowerCase(header), ',')) {
+			if (Strings::trim(option) == "upgrade") connectionUpgrade = true;
+		}
+	}
+
+	if (headerUpgrade != "websocket" || !connectionUpgrade || !headerWsKey.size()) {
 		throw UpgradeError("Websocket handshake header invalid", 400);
 	}
 
+	if (request.headers.get("Sec-WebSocket-Version") != "13") {
+		throw UpgradeError("Websocket version not supported", 400);
+	}
+
 	if (this->m_transport.hasPartialData()) {
 		throw UpgradeError("Websocket handshake has extra data after headers", 400);
 	}
-- 
2.43.0


From 1e9277b2b84223b11e5d42e6d145787b50ee9114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:39 +0000
Subject: [PATCH 68/74] fix: refuse event streams in response to HEAD requests

---
 core/server/worker.cpp | 11 ++++++++++-
 core/sse/writer.cpp    |  6 ++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 7cbc32d..509748f 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -103,9 +103,18 @@ void Server::connectionWorker(
 			};
 
 			const std::function<SSE::Writer()> upgradeCallbackSSE = [&]() {
+
+				const auto previousMode = handlerMode;
 				handlerMode = HandlerMode::SSE;
 				logConnectionUpgrade("SSE stream");
-				return SSE::Writer({ workerctx, transport, next });
+
+				try {
+					return SSE::Writer({ workerctx, transport, next });
+				} catch (const UpgradeError& err) {
+					//	nothing was sent, so the handler still can respond over http
+					handlerMode = previousMode;
+					throw;
+				}
 			};
 
 			const std::function<WebsocketContext()> upgradeCallbackWS = [&]() {
diff --git a/core/sse/writer.cpp b/core/sse/writer.cpp
index cd53982..95e1244 100644
--- a/core/sse/writer.cpp
+++ b/core/sse/writer.cpp
@@ -1,4 +1,5 @@
 #include "./sse.hpp"
+#include "../server/server_impl.hpp"
 #include "../polyfill/polyfill.hpp"
 
 using namespace Lambda;
@@ -6,10 +7,15 @@ using namespace Lambda::Network;
 using namespace Lambda::SSE;
 using namespace Lambda::HTTP;
 using namespace Lambda::HTTP::Transport;
+using namespace Lambda::Server::Connection;
 
 Writer::Writer(WriterInit init) :
 	m_worker(init.workerctx), m_transport(init.transport) {
 
+	if (init.requestEvent.request.method == HTTP::Methods::HEAD) {
+		throw UpgradeError("There's no event stream in a response to a HEAD request", 405);
+	}
+
 	this->m_transport.flags.autocompress = false;
 	this->m_transport.flags.forceContentLength = false;
 
-- 
2.43.0


From fd006ce7544e348d50cfdfcd2389426269a8747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:36 +0000
Subject: [PATCH 69/74] fix: keep line breaks in a handler's headers and status
 text from splitting the response

---
 core/http/transport_v1.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index ffe4de4..8f860e9 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -36,6 +36,14 @@ static std::string connectionOptions(const Headers& headers) {
 	return result;
 }
 
+//	a line break in a handler's text must not end the header line it's in
+static std::string singleLine(std::string text, char replacement) {
+	for (auto& chr : text) {
+		if (chr == '\r' || chr == '\n' || chr == '\0') chr = replacement;
+	}
+	return text;
+}
+
 TransportContextV1::TransportContextV1(
 	Network::TCP::Connection& connInit,
 	const TransportOptions& optsInit
@@ -281,7 +289,10 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 		response.status.code() == 204 || response.status.code() == 304;
 
 	auto applyEncoding = ContentEncodings::None;
-	auto responseHeaders = responsectx.response.headers;
+	HTTP::Headers responseHeaders;
+	for (const auto& header : response.headers.entries()) {
+		responseHeaders.append(singleLine(header.first, '_'), singleLine(header.second, ' '));
+	}
 
 	#ifdef LAMBDA_BUILDOPTS_ENABLE_COMPRESSION
 
@@ -383,7 +394,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	headerBuff.push_back(0x20);
 
 	//	push response status text
-	const auto& statusText = responseStatus.text();
+	const auto statusText = singleLine(responseStatus.text(), ' ');
 	headerBuff.insert(headerBuff.end(), statusText.begin(), statusText.end());
 
 	static const std::string lineSeparator = "\r\n";
-- 
2.43.0


From 59c90e726d179dd68a188772ac8ff06baf0da747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:31 +0000
Subject: [PATCH 70/74] fix: refuse request headers with bare line breaks, null
 characters or whitespace in a name

---
 core/http/transport_v1.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 8f860e9..d2b0c7e 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -91,6 +91,20 @@ bool TransportContextV1::awaitNext() {
 	auto headerFields = Strings::split(std::string(this->m_readbuff.begin(), headerEnded), "\r\n");
 	this->m_readbuff.erase(this->m_readbuff.begin(), headerEnded + patternEndHeader.size());
 
+	//	what has been split at line breaks must have none left, and there's no valid use for null characters
+	for (const auto& field : headerFields) {
+		for (const auto chr : field) {
+			if (chr == '\r' || chr == '\n' || chr == '\0') throw ProtocolError("Invalid characters in the request header", 400);
+		}
+	}
+
+	//	a folded line or a space before the colon would be read differently by others
+	for (size_t i = 1; i < headerFields.size(); i++) {
+		if (headerFields[i].find_first_of(" \t") < headerFields[i].find(':')) {
+			throw ProtocolError("Invalid request header (whitespace in a name)", 400);
+		}
+	}
+
 	auto headerStartLine = Strings::split(headerFields.size() ? headerFields.front() : "", ' ');
 	if (headerStartLine.size() != 3 || !headerStartLine[0].size() || !headerStartLine[1].size() || !Strings::startsWith(headerStartLine.back(), "HTTP/")) {
 		throw ProtocolError("Invalid HTTP request", 400);
-- 
2.43.0


From a01edfe86b909a1b9760b086cd83d94b722d8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:28 +0000
Subject: [PATCH 71/74] fix: give copies of a SHA1 hasher a state of their own

---
 core/crypto/crypto.hpp | 3 +++
 core/crypto/sha1.cpp   | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/core/crypto/crypto.hpp b/core/crypto/crypto.hpp
index d8e0e48..ca8f408 100644
--- a/core/crypto/crypto.hpp
+++ b/core/crypto/crypto.hpp
@@ -16,7 +16,10 @@ namespace Lambda::Crypto {
 			static const size_t BlockSize = 20;
 
 			SHA1();
+			SHA1(const SHA1& other);
 			~SHA1();
+
+			SHA1& operator=(const SHA1& other);
 			SHA1& reset();
 			SHA1& update(const std::vector<uint8_t>& buffer);
 			SHA1& update(const std::string& text);
diff --git a/core/crypto/sha1.cpp b/core/crypto/sha1.cpp
index 5907344..a65dc74 100644
--- a/core/crypto/sha1.cpp
+++ b/core/crypto/sha1.cpp
@@ -71,6 +71,15 @@ SHA1::SHA1() {
 	this->reset();
 }
 
+SHA1::SHA1(const SHA1& other) {
+	this->hashctx = new SHA1_CTX(*(const SHA1_CTX*)other.hashctx);
+}
+
+SHA1& SHA1::operator=(const SHA1& other) {
+	*(SHA1_CTX*)this->hashctx = *(const SHA1_CTX*)other.hashctx;
+	return *this;
+}
+
 SHA1::~SHA1() {
 	delete (SHA1_CTX*)this->hashctx;
 }
-- 
2.43.0


From bbbcb320b3d84a45f45b9e7a28aa1b4d9ee14277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 72/74] fix: read JSON numbers the same way in every locale

---
 core/json/parse.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 0d29d93..49af642 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -1,6 +1,7 @@
 #include "./json.hpp"
 #include "../../core/polyfill/polyfill.hpp"
 
+#include <charconv>
 #include <stdexcept>
 
 using namespace Lambda;
@@ -97,6 +98,16 @@ Property JSON::parse(const std::string& text) {
 	return parseValue(text, 0);
 }
 
+//	unlike the std::sto* functions it doesn't depend on the locale of the program
+static long double parseFloat(const std::string& text) {
+
+	long double value = 0;
+	const auto result = std::from_chars(text.data(), text.data() + text.size(), value);
+	if (result.ec != std::errc()) throw std::out_of_range("Invalid JSON: number is out of range");
+
+	return value;
+}
+
 static Property parseValue(const std::string& text, size_t depth) {
 
 	if (depth > maxNestingDepth) throw std::runtime_error("Invalid JSON: nesting is too deep");
@@ -116,7 +127,7 @@ static Property parseValue(const std::string& text, size_t depth) {
 			return Property(unescapeText(objectText.substr(1, objectText.size() - 2)));
 
 		} else if (isdigit(objectText.at(0)) || objectText.at(0) == '-') {
-			return objectText.find_first_of(".eE") == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
+			return objectText.find_first_of(".eE") == std::string::npos ? Property(std::stoi(objectText)) : Property(parseFloat(objectText));
 		} else if ((objectText.starts_with('t') || objectText.starts_with('f')) && objectText.ends_with('e')) {
 			return Property(objectText == "true");
 		} else {
-- 
2.43.0


From 478f19515c14b24d4b7b084a6a80bea5f4c76c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:58 +0000
Subject: [PATCH 73/74] fix: format dates the same way in every locale

---
 core/polyfill/date.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/core/polyfill/date.cpp b/core/polyfill/date.cpp
index 04b7980..5b310b5 100644
--- a/core/polyfill/date.cpp
+++ b/core/polyfill/date.cpp
@@ -9,6 +9,16 @@
 
 using namespace Lambda;
 
+//	strftime would translate these for the locale of the program
+static const char* const weekdays[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
+static const char* const months[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
+
+static std::string format(const std::string& pattern, const std::tm& time) {
+	char timebuff[64];
+	strftime(timebuff, sizeof(timebuff), pattern.c_str(), &time);
+	return timebuff;
+}
+
 Date::Date() noexcept {
 	this->epoch = std::time(nullptr);
 	gmtime_r(&this->epoch, &this->timestruct);
@@ -24,21 +34,15 @@ time_t Date::getTime() const noexcept {
 }
 
 std::string Date::toUTCString() const noexcept {
-	char timebuff[64];
-	strftime(timebuff, sizeof(timebuff), "%a, %d %b %Y %H:%M:%S GMT", &this->timestruct);
-	return timebuff;
+	return this->getDate() + format(" %H:%M:%S GMT", this->timestruct);
 }
 
 std::string Date::toHRTString() const noexcept {
-	char timebuff[32];
-	strftime(timebuff, sizeof(timebuff), "%d %b %Y %H:%M:%S", &this->timestruct);
-	return std::string(timebuff);
+	return format("%d ", this->timestruct) + months[this->timestruct.tm_mon] + format(" %Y %H:%M:%S", this->timestruct);
 }
 
 std::string Date::getDate() const noexcept {
-	char timebuff[64];
-	strftime(timebuff, sizeof(timebuff), "%a, %d %b %Y", &this->timestruct);
-	return timebuff;
+	return weekdays[this->timestruct.tm_wday] + format(", %d ", this->timestruct) + months[this->timestruct.tm_mon] + format(" %Y", this->timestruct);
 }
 
 int Date::getSeconds() const noexcept {
-- 
2.43.0


From a588a2e3076c42d0ae5d5bfbab31fe2c26919dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:09 +0000
Subject: [PATCH 74/74] fix: tell letters from other bytes the same way in
 every locale

---
 core/encoding/base64.cpp | 3 ++-
 core/html/renderer.cpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/encoding/base64.cpp b/core/encoding/base64.cpp
index de27ca9..4187323 100644
--- a/core/encoding/base64.cpp
+++ b/core/encoding/base64.cpp
@@ -53,7 +53,8 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 	//	check base64 string validity real quick
 	for (size_t i = 0; i < data.size(); i++) {
 		auto symbol = data[i];
-		if (!isalnum(symbol) && symbol != '+' && symbol != '/' && !(symbol == '=' && i >= paddBegins))
+		const auto isAscii = static_cast<uint8_t>(symbol) < 0x80;
+		if (!(isAscii && isalnum(symbol)) && symbol != '+' && symbol != '/' && !(symbol == '=' && i >= paddBegins))
 			throw std::runtime_error("Invalid symbol in base64 sequence at position " + std::to_string(i));
 	}
 
diff --git a/core/html/renderer.cpp b/core/html/renderer.cpp
index e9989b2..0651182 100644
--- a/core/html/renderer.cpp
+++ b/core/html/renderer.cpp
@@ -37,7 +37,7 @@ std::string HTML::renderTemplate(const std::string& templateSource, const Templa
 std::optional<std::string> getTemplateVariableFromSlice(const std::string& source, size_t startpos, size_t endpost) {
 
 	static auto isVarname = [](char chr) {
-		return chr == '_' || isalnum(chr);
+		return chr == '_' || (static_cast<unsigned char>(chr) < 0x80 && isalnum(chr));
 	};
 
 	static auto isWhitespace = [](char chr) {
-- 
2.43.0

