From 9ce44c8b60cee0eeb0107978c1ed408ae3dbb1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 001/156] fix: CAnyValue assignment from a part of itself used
 freed memory

assign() released the old content before copying, so v = v["child"] read freed
memory; the copy constructor also tested an uninitialised type.
---
 include/CAnyValue.h | 53 +++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4cb503d..d5f3bbe 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -233,7 +233,7 @@ namespace lce
         }
 
         CAnyValue(const CAnyValue &rhs)
-            : m_bInit(false)
+            : m_ucType(DType::Null), m_ucSubType(DType::Null), m_bInit(false), m_bHasData(false)
         {
             init();
             assign(rhs);
@@ -1926,49 +1926,30 @@ namespace lce
 
         void assign(const this_type &rhs)
         {
-            if (m_ucType == DType::String)
-                delete m_value.buf;
-            if (m_ucType == DType::Vector)
-                delete m_value.vec;
-            if (m_ucType == DType::Map)
-                delete m_value.map;
+            // copy first: rhs may be (part of) the value released below
+            const unsigned char ucType = rhs.m_ucType;
+            const unsigned char ucSubType = rhs.m_ucSubType;
+            const bool bHasData = rhs.m_bHasData;
+            ValueHolder value = rhs.m_value;
 
-            if (rhs.m_ucType == DType::Integer)
+            if (ucType == DType::Map)
             {
-                m_value.integer = rhs.m_value.integer;
+                value.map = new MapType(*rhs.m_value.map);
             }
-
-            if (rhs.m_ucType == DType::SInteger)
+            else if (ucType == DType::Vector)
             {
-                m_value.integer = rhs.m_value.integer;
+                value.vec = new VecType(*rhs.m_value.vec);
             }
-
-            if (rhs.m_ucType == DType::Bool)
-            {
-                m_value.integer = rhs.m_value.integer;
-            }
-
-            if (rhs.m_ucType == DType::Float)
+            else if (ucType == DType::String)
             {
-                m_value.flValue = rhs.m_value.flValue;
+                value.buf = new BufType(*rhs.m_value.buf);
             }
 
-            else if (rhs.m_ucType == DType::Map)
-            {
-                m_value.map = new MapType(*(rhs.m_value.map));
-            }
-            else if (DType::Vector == rhs.m_ucType)
-            {
-                m_value.vec = new VecType(*rhs.m_value.vec);
-            }
-            else if (DType::String == rhs.m_ucType)
-            {
-                m_value.buf = new BufType((*rhs.m_value.buf));
-            }
-            m_ucType = rhs.m_ucType;
-            m_ucSubType = rhs.m_ucSubType;
-            m_bHasData = rhs.m_bHasData;
-            m_bInit = rhs.m_bInit;
+            this->clear();
+            m_value = value;
+            m_ucType = ucType;
+            m_ucSubType = ucSubType;
+            m_bHasData = bHasData;
         }
 
     private:
-- 
2.43.0


From 1cb499880db6f570b4a5757e92da9281d03d3ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 002/156] fix: CAnyValue::decode into a used value leaked,
 merged or confused types

The old content was neither released nor reset. With a duplicate map key the
integers of one element were later used as the string/map pointer of the next.
---
 include/CAnyValue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index d5f3bbe..f9e1edb 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1796,6 +1796,7 @@ namespace lce
 
             };
             check(dwDecodePos + 1, dwDataSize);
+            this->clear();
             m_ucSubType = *(pData + dwDecodePos);
             dwDecodePos++;
 
-- 
2.43.0


From a3c51b1a95f6af3e42881d79322fdceb85610433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 003/156] fix: CAnyValue::decode accepted unknown types and
 truncated maps as complete

---
 include/CAnyValue.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index f9e1edb..2ee264d 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1190,10 +1190,7 @@ namespace lce
                 check(dwDecodePos + ucNameLen, dwDataSize);
                 BufType sName(pData + dwDecodePos, ucNameLen);
                 dwDecodePos += ucNameLen;
-                if (dwDataSize > dwDecodePos)
-                {
-                    (*thisobj.m_value.map)[sName].decode(dwDecodePos, pData, dwDataSize);
-                }
+                (*thisobj.m_value.map)[sName].decode(dwDecodePos, pData, dwDataSize);
             }
         }
 
@@ -1203,6 +1200,7 @@ namespace lce
         }
         static void decode_ext(size_t &dwDecodePos, const char *pData, const size_t dwDataSize, this_type &thisobj)
         {
+            throw Error("decode data error: unsupported type.");
         }
         static void decode_float(size_t &dwDecodePos, const char *pData, const size_t dwDataSize, this_type &thisobj)
         {
@@ -1804,6 +1802,10 @@ namespace lce
             {
                 arDecodeFunc[m_ucSubType](dwDecodePos, pData, dwDataSize, *this);
             }
+            else
+            {
+                throw Error("decode data error: unknown type.");
+            }
         }
 
     public:
-- 
2.43.0


From a3126a8b2a50a24b9ba887d25bced5ab4cd1112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 004/156] fix: CAnyValue::decode allocated whatever element
 count the wire claimed

---
 include/CAnyValue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 2ee264d..c11ad35 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1167,11 +1167,13 @@ namespace lce
             check(dwDecodePos + 4, dwDataSize);
             uint32_t dwSize = ntohl(*(uint32_t *)(pData + dwDecodePos));
             dwDecodePos += 4;
-            thisobj.m_value.vec->resize(dwSize);
 
+            // grow with the data: dwSize comes from the wire
             for (uint32_t i = 0; i < dwSize; ++i)
             {
-                (*thisobj.m_value.vec)[i].decode(dwDecodePos, pData, dwDataSize);
+                check(dwDecodePos + 1, dwDataSize);
+                thisobj.m_value.vec->push_back(CAnyValue());
+                thisobj.m_value.vec->back().decode(dwDecodePos, pData, dwDataSize);
             }
         }
         static void decode_map(size_t &dwDecodePos, const char *pData, const size_t dwDataSize, this_type &thisobj)
-- 
2.43.0


From ab20da34b3003a164d5266e2657aa88c66e166b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 005/156] fix: CAnyValue::encode truncated positive signed
 integers

A signed value of 128 or more (received from another encoder) was sent on as one byte.
---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index c11ad35..ee52084 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1694,18 +1694,18 @@ namespace lce
 
             int64_t iValue = (int64_t)value.integer;
 
-            if (iValue > -129)
+            if (iValue > -129 && iValue < 128)
             {
                 sBuf.push_back((char)DType::SInteger1);
                 sBuf.push_back((char)value.integer);
             }
-            else if (iValue > -32769)
+            else if (iValue > -32769 && iValue < 32768)
             {
                 sBuf.push_back((char)DType::SInteger2);
                 unsigned short wTmp = htons(static_cast<uint16_t>(value.integer));
                 sBuf.append(reinterpret_cast<char *>(&wTmp), sizeof(wTmp));
             }
-            else if (iValue > -2147483649)
+            else if (iValue > -2147483649LL && iValue < 2147483648LL)
             {
                 sBuf.push_back((char)DType::SInteger4);
                 uint32_t dwTmp = htonl(static_cast<uint32_t>(value.integer));
-- 
2.43.0


From e5dcc8e95350a5b899c71afea58443c33e703d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 006/156] fix: CAnyValue::decode kept bool bytes other than 0
 and 1

Such a value was true for asBool() but was written as false in JSON and XML.
---
 include/CAnyValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index ee52084..98188ef 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1067,7 +1067,7 @@ namespace lce
         {
             thisobj.m_ucType = DType::Bool;
             check(dwDecodePos + 1, dwDataSize);
-            thisobj.m_value.integer = (unsigned char)*(unsigned char *)(pData + dwDecodePos);
+            thisobj.m_value.integer = *(pData + dwDecodePos) != 0 ? 1 : 0;
             ++dwDecodePos;
         }
 
-- 
2.43.0


From f422d3d777709c7b2f2ced2b759fa2fdf7fb7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 007/156] fix: CAnyValue::decodeJSON read past the end of the
 input

The readers test szBuf[dwPos] and szBuf[dwPos + 1] without a size check, and a
trailing backslash made the position pass the end, giving a negative length.
---
 include/CAnyValue.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 98188ef..a1e1c6c 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -683,8 +683,16 @@ namespace lce
             this->clear();
         }
 
-        void decodeJSON(const char *szBuf, const size_t iSize)
+        void decodeJSON(const char *pszData, const size_t iSize)
         {
+            if (iSize > 0x7FFFFFFF)
+            {
+                throw runtime_error("json data too large");
+            }
+
+            // the readers look at the character behind the current one: give them a terminated copy
+            const std::string sData(pszData, iSize);
+            const char *szBuf = sData.c_str();
             int dwPos = 0;
             skipSpaces(dwPos, szBuf, iSize);
 
-- 
2.43.0


From f58bb68b9bf0949fabe3b644eb4c98d0757992a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 008/156] fix: CAnyValue::decodeJSON lost a top level string
 and mixed in old content

The string was assigned with a wrong substring overload and came out empty; a
used target leaked, threw or kept its previous members.
---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index a1e1c6c..d17b402 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -694,6 +694,7 @@ namespace lce
             const std::string sData(pszData, iSize);
             const char *szBuf = sData.c_str();
             int dwPos = 0;
+            this->clear();
             skipSpaces(dwPos, szBuf, iSize);
 
             if (szBuf[dwPos] == '{')
@@ -713,8 +714,7 @@ namespace lce
                 readString(dwPos, sValue, szBuf, iSize);
                 dwPos++;
 
-                this->initAsBuf();
-                this->m_value.buf->assign(sValue.data(), sValue.size(), true);
+                *this = sValue;
             }
             else if (szBuf[dwPos] == 't')
             {
-- 
2.43.0


From bdbbf75fc0900c14b5f0c3853f7638cad94adaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 009/156] fix: CAnyValue::decodeJSON accepted arrays and
 objects cut short

---
 include/CAnyValue.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index d17b402..4ddc425 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1399,9 +1399,13 @@ namespace lce
         {
             oValue.initAsVector();
 
-            while (dwPos < iSize)
+            while (true)
             {
                 skipSpaces(dwPos, szBuf, iSize);
+                if (dwPos >= iSize)
+                {
+                    throw runtime_error("expect ']'");
+                }
                 if (szBuf[dwPos] == ']')
                 {
                     dwPos++;
@@ -1518,9 +1522,13 @@ namespace lce
         {
             oValue.initAsMap();
 
-            while (dwPos < iSize)
+            while (true)
             {
                 skipSpaces(dwPos, szBuf, iSize);
+                if (dwPos >= iSize)
+                {
+                    throw runtime_error("expect '}'");
+                }
                 if (szBuf[dwPos] == '}')
                 {
                     dwPos++;
-- 
2.43.0


From b162953de0f81a8e8f7076ee41ff779e8e30effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 010/156] fix: CAnyValue::decodeJSON misread numbers with an
 exponent and no fraction

1e5 was read as 1, and any other text in place of a number as 0.
---
 include/CAnyValue.h | 87 ++++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 61 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4ddc425..0131cf3 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -764,30 +764,7 @@ namespace lce
             {
                 string sValue;
                 readNumber(dwPos, sValue, szBuf, iSize);
-                if (sValue.find('.') != string::npos)
-                {
-                    double flValue = atof(sValue.c_str());
-                    this->m_ucType = DType::Float;
-                    this->m_value.flValue = flValue;
-                }
-                else
-                {
-
-                    this->m_ucType = sValue[0] == '-' ? DType::SInteger : DType::Integer;
-
-                    if (sValue[0] == '-')
-                    {
-                        int64_t ddwValue = atoll(sValue.c_str());
-                        this->m_value.integer = ddwValue;
-                        this->m_ucType = DType::SInteger;
-                    }
-                    else
-                    {
-                        uint64_t ddwValue = strtoull(sValue.c_str(), 0, 10);
-                        this->m_value.integer = ddwValue;
-                        this->m_ucType = DType::Integer;
-                    }
-                }
+                *this = toNumber(sValue);
             }
         }
 
@@ -1395,6 +1372,29 @@ namespace lce
             }
         }
 
+        static CAnyValue toNumber(const string &sValue)
+        {
+            char *pEnd = NULL;
+            CAnyValue oNumber;
+            if (sValue.find_first_of(".eE") != string::npos)
+            {
+                oNumber = strtod(sValue.c_str(), &pEnd);
+            }
+            else if (sValue[0] == '-')
+            {
+                oNumber = static_cast<long long>(strtoll(sValue.c_str(), &pEnd, 10));
+            }
+            else
+            {
+                oNumber = static_cast<unsigned long long>(strtoull(sValue.c_str(), &pEnd, 10));
+            }
+            if (pEnd == sValue.c_str() || *pEnd != 0)
+            {
+                throw runtime_error("not a number: " + sValue.substr(0, 100));
+            }
+            return oNumber;
+        }
+
         static void readArray(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
             oValue.initAsVector();
@@ -1479,24 +1479,7 @@ namespace lce
                 {
                     string sValue;
                     readNumber(dwPos, sValue, szBuf, iSize);
-                    if (sValue.find('.') != string::npos)
-                    {
-                        double flValue = atof(sValue.c_str());
-                        oValue.push_back(flValue);
-                    }
-                    else
-                    {
-                        if (sValue[0] == '-')
-                        {
-                            int64_t ddwValue = atoll(sValue.c_str());
-                            oValue.push_back(ddwValue);
-                        }
-                        else
-                        {
-                            uint64_t ddwValue = strtoull(sValue.c_str(), 0, 10);
-                            oValue.push_back(ddwValue);
-                        }
-                    }
+                    oValue.push_back(toNumber(sValue));
                 }
                 skipSpaces(dwPos, szBuf, iSize);
                 if (szBuf[dwPos] == ']')
@@ -1626,25 +1609,7 @@ namespace lce
                     {
                         string sValue;
                         readNumber(dwPos, sValue, szBuf, iSize);
-                        if (sValue.find('.') != string::npos)
-                        {
-                            double flValue = atof(sValue.c_str());
-                            oValue[sKey] = flValue;
-                        }
-                        else
-                        {
-
-                            if (sValue[0] == '-')
-                            {
-                                int64_t ddwValue = atoll(sValue.c_str());
-                                oValue[sKey] = ddwValue;
-                            }
-                            else
-                            {
-                                uint64_t ddwValue = strtoull(sValue.c_str(), 0, 10);
-                                oValue[sKey] = ddwValue;
-                            }
-                        }
+                        oValue[sKey] = toNumber(sValue);
                     }
 
                     skipSpaces(dwPos, szBuf, iSize);
-- 
2.43.0


From 94bddb3ff826f319ba5ef6645eae9b739843cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 011/156] fix: CAnyValue::decodeJSON did not combine surrogate
 pairs

---
 include/CAnyValue.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 0131cf3..ee284d4 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1327,6 +1327,17 @@ namespace lce
                     dwPos++;
                     uint32_t unicode = 0;
                     readUnicode(dwPos, szBuf, iSize, unicode);
+                    if (unicode >= 0xD800 && unicode < 0xDC00 && dwPos + 6 < iSize && szBuf[dwPos + 1] == '\\' && szBuf[dwPos + 2] == 'u')
+                    {
+                        int dwLowPos = dwPos + 2;
+                        uint32_t low = 0;
+                        readUnicode(dwLowPos, szBuf, iSize, low);
+                        if (low >= 0xDC00 && low < 0xE000)
+                        {
+                            unicode = 0x10000 + ((unicode - 0xD800) << 10) + (low - 0xDC00);
+                            dwPos = dwLowPos;
+                        }
+                    }
                     sValue.append(unicodeToUTF8(unicode));
                 }
                 else if (szBuf[dwPos] == '"')
-- 
2.43.0


From 14088a425878921cb7a1708ff1fd916897b49268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 012/156] fix: CAnyValue::encodeJSON wrote NUL characters
 unescaped

---
 include/CAnyValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index ee284d4..b2ae8d4 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -941,7 +941,7 @@ namespace lce
 
         static inline bool isControlCharacter(char ch)
         {
-            return ch > 0 && ch <= 0x1F;
+            return ch >= 0 && ch <= 0x1F;
         }
 
     public:
-- 
2.43.0


From 7905175a053ed3f4fc311fd50d666ad4abcca234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 013/156] fix: CAnyValue JSON and XML output cut the last digit
 of 20 character integers

---
 include/CAnyValue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index b2ae8d4..0549495 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -813,14 +813,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[32];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[32];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
@@ -966,14 +966,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[32];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[32];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
-- 
2.43.0


From 7d5186fa195505f0d037edcaa853264985cb913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 014/156] fix: CAnyValue JSON and XML output of doubles was
 inexact or invalid

16 digits do not identify every double, "1234567890123456." and "inf" are no
JSON numbers.
---
 include/CAnyValue.h | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 0549495..e2c52e3 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -827,9 +827,7 @@ namespace lce
             break;
             case DType::Float:
             {
-                char buffer[32];
-                snprintf(buffer, sizeof(buffer), "%#.16g", m_value.flValue);
-                sBuf += buffer;
+                appendFloat(sBuf, m_value.flValue);
             }
             break;
             case DType::String:
@@ -939,6 +937,26 @@ namespace lce
             }
         }
 
+        static void appendFloat(std::string &sBuf, const double flValue)
+        {
+            if (flValue != flValue || flValue - flValue != 0)
+            {
+                sBuf += "null"; // there is no text for inf and nan
+                return;
+            }
+            char buffer[40];
+            snprintf(buffer, sizeof(buffer), "%#.16g", flValue);
+            if (strtod(buffer, NULL) != flValue)
+            {
+                snprintf(buffer, sizeof(buffer), "%#.17g", flValue);
+            }
+            sBuf += buffer;
+            if (sBuf[sBuf.size() - 1] == '.')
+            {
+                sBuf += "0";
+            }
+        }
+
         static inline bool isControlCharacter(char ch)
         {
             return ch >= 0 && ch <= 0x1F;
@@ -980,9 +998,7 @@ namespace lce
             break;
             case DType::Float:
             {
-                char buffer[32];
-                snprintf(buffer, sizeof(buffer), "%#.16g", m_value.flValue);
-                sBuf += buffer;
+                appendFloat(sBuf, m_value.flValue);
             }
             break;
             case DType::String:
-- 
2.43.0


From 56041227784a0166c42533e928ce528ff3d73036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 015/156] fix: CAnyValue::encodeXML let "]]>" in a string end
 its CDATA section

---
 include/CAnyValue.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index e2c52e3..9474da4 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -833,7 +833,15 @@ namespace lce
             case DType::String:
             {
                 sBuf += "<![CDATA[";
-                sBuf += (*m_value.buf);
+                size_t dwBegin = 0;
+                size_t dwEnd = 0;
+                while ((dwEnd = m_value.buf->find("]]>", dwBegin)) != std::string::npos)
+                {
+                    sBuf.append(*m_value.buf, dwBegin, dwEnd + 2 - dwBegin);
+                    sBuf += "]]><![CDATA[";
+                    dwBegin = dwEnd + 2;
+                }
+                sBuf.append(*m_value.buf, dwBegin, std::string::npos);
                 sBuf += "]]>";
             }
             break;
-- 
2.43.0


From 556f5e0020feb92466ba6f9227559833d550d02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 016/156] fix: CAnyValue decoders overflowed the stack on
 deeply nested input

---
 include/CAnyValue.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 9474da4..645a1ed 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1430,8 +1430,32 @@ namespace lce
             return oNumber;
         }
 
+        // decoding recurses: bound the nesting the input can ask for
+        struct CDepthGuard
+        {
+            enum
+            {
+                MAX_DEPTH = 1000
+            };
+            CDepthGuard()
+            {
+                if (depth() >= MAX_DEPTH)
+                {
+                    throw Error("decode data error: nested too deep.");
+                }
+                ++depth();
+            }
+            ~CDepthGuard() { --depth(); }
+            static int &depth()
+            {
+                static __thread int iDepth = 0;
+                return iDepth;
+            }
+        };
+
         static void readArray(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            CDepthGuard oGuard;
             oValue.initAsVector();
 
             while (true)
@@ -1538,6 +1562,7 @@ namespace lce
 
         static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            CDepthGuard oGuard;
             oValue.initAsMap();
 
             while (true)
@@ -1811,6 +1836,7 @@ namespace lce
                                                    &decode_sinteger1, &decode_sinteger2, &decode_sinteger4, &decode_sinteger8
 
             };
+            CDepthGuard oGuard;
             check(dwDecodePos + 1, dwDataSize);
             this->clear();
             m_ucSubType = *(pData + dwDecodePos);
-- 
2.43.0


From 8478863449a5b3f47f546f400ba90a865e9bfc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 017/156] fix: CAnyValuePackage decoded past the end of its
 body

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 645a1ed..b8ba795 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -2085,7 +2085,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decode(pData + dwPos, dwDataSize);
+            m_oAnyValues.decode(pData + dwPos, dwDataSize - dwPos);
         }
 
         void decodeJSON(const unsigned char *pData, const size_t dwDataSize)
@@ -2108,7 +2108,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize);
+            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize - dwPos);
         }
 
         const char *data()
-- 
2.43.0


From 2c92ecf5e267789e5d2e4fc57df47fff8a4e0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 018/156] fix: FormUrlDecode threw or invented characters on
 malformed escapes

---
 src/Utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 1f29a32..8647afb 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -534,6 +534,12 @@ namespace lce
             {
                 char szTmpStr[] = "0x000";
                 int iChNum;
+                if (j + 2 >= iLen || !isxdigit((unsigned char)sSrc[j + 1]) || !isxdigit((unsigned char)sSrc[j + 2]))
+                {
+                    // not an escape sequence
+                    sResult += ch;
+                    continue;
+                }
                 szTmpStr[3] = sSrc.at(j + 1);
                 szTmpStr[4] = sSrc.at(j + 2);
                 iChNum = strtol(szTmpStr, 0, 16);
-- 
2.43.0


From 07f6d1dd598478956a5ab9387dc25ad28fa76e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 019/156] fix: CPackage assignment and << of characters did not
 compile

---
 include/CPackage.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index a1b8b5f..a692d0a 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -55,7 +55,7 @@ namespace lce
 		{
 			if (this != &rhs)
 			{
-				this->assign();
+				this->assign(rhs);
 			}
 
 			return *this;
@@ -282,12 +282,12 @@ namespace lce
 
 		this_type &operator<<(const unsigned char ucVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&ucVal), sizeof(unsigned char));
+			m_pkgData.append(reinterpret_cast<const char *>(&ucVal), sizeof(unsigned char));
 			return *this;
 		}
 		this_type &operator<<(const char cVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&cVal), sizeof(char));
+			m_pkgData.append(reinterpret_cast<const char *>(&cVal), sizeof(char));
 			return *this;
 		}
 
-- 
2.43.0


From 548f513e267c9644a0f9f4b2cc095f36fd9efeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 020/156] fix: CPackage accepted data shorter than its header

---
 include/CPackage.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/CPackage.h b/include/CPackage.h
index a692d0a..16ccf7f 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -37,6 +37,10 @@ namespace lce
 			{
 				throw Error("pszPkgData is null.");
 			}
+			else if (static_cast<int>(sizeof(PKG_HEAD)) > iLen)
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData.erase();
 			m_pkgData.assign((char *)pszPkgData, iLen);
@@ -82,6 +86,10 @@ namespace lce
 
 		void setPkgData(const std::string sData)
 		{
+			if (sizeof(PKG_HEAD) > sData.size())
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData = sData;
 		}
-- 
2.43.0


From 15d4b3ff06149fd24b7e1c49469abf5171d94d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 021/156] fix: CPackage reads with a negative length or past
 the last string left the package

---
 include/CPackage.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 16ccf7f..ab7bc97 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -548,7 +548,7 @@ namespace lce
 
 		void read(char *pszBuf, const int iReadLen)
 		{
-			if (iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (iReadLen >= 0 && iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				memcpy(pszBuf, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, iReadLen);
 			}
@@ -561,7 +561,7 @@ namespace lce
 
 		void read(std::string &sBuf, const int iReadLen)
 		{
-			if (iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (iReadLen >= 0 && iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				sBuf.assign(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, iReadLen);
 			}
@@ -574,10 +574,15 @@ namespace lce
 
 		void readString(std::string &sData)
 		{
+			const int iLeft = static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos);
+			if (iLeft <= 0)
+			{
+				throw Error("data error:no enough buf.");
+			}
 			const char *pData = m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos;
-			int iStrLen = strlen(pData);
-			sData = pData;
-			m_iPos += iStrLen + 1;
+			int iStrLen = strnlen(pData, iLeft);
+			sData.assign(pData, iStrLen);
+			m_iPos += iStrLen < iLeft ? iStrLen + 1 : iStrLen;
 		}
 
 		void readString1(std::string &sData)
-- 
2.43.0


From b882456930c8fc5020693b4f7a91c2e5c3ef7260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 022/156] fix: CPackage::seek could move the read position
 outside the body

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index ab7bc97..9b101d9 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -647,14 +647,14 @@ namespace lce
 				}
 				break;
 			case S_CUR:
-				if (static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) > iOffPos && m_iPos + iOffPos >= 0)
+				if (iOffPos <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) - m_iPos && iOffPos >= -m_iPos)
 				{
 					m_iPos += iOffPos;
 					bOk = true;
 				}
 				break;
 			case S_END:
-				if (iOffPos <= 0 && (int)m_pkgData.size() > abs(iOffPos))
+				if (iOffPos <= 0 && iOffPos >= -static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)))
 				{
 
 					m_iPos = (int)m_pkgData.size() - sizeof(PKG_HEAD) + iOffPos;
-- 
2.43.0


From 4612f3bc0d526ce42e54ff96f89e09c25c5deb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 023/156] fix: Gmt2Time overflowed for dates from 2036 on

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 8647afb..ab97c34 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -427,7 +427,7 @@ namespace lce
         if (month > 10)
             year--;
         year = year * 365 + year / 4 + month * 520 / 17 + day;
-        return year * 86400 + sec - 60652800;
+        return static_cast<time_t>(year) * 86400 + sec - 60652800;
     }
 
     std::string FormUrlEncode(const std::string &sSrc)
-- 
2.43.0


From e7eeb9337b7a4d26b42fc0ece5b63227f67251bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 024/156] fix: CHttpReader took part of the head of a POST
 without a head end as its body

---
 src/CHttpReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index b2a3235..cff1d31 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -82,6 +82,12 @@ namespace lce
 			}
 			else if (m_nCommand == POST)
 			{
+				if (headEndPos == string::npos)
+				{
+					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "parse http head error: can't find the end of the head.");
+					return false;
+				}
+
 				string::size_type tmpPos = m_sURI.find('?');
 				if (tmpPos != string::npos)
 				{
-- 
2.43.0


From 1b4e3e88a1d78283f658e986d78d23e01ce3f36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 025/156] fix: CHttpReader misread headers without a blank
 behind the colon

---
 src/CHttpReader.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index cff1d31..b2635d3 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -135,7 +135,12 @@ namespace lce
 			sLine = m_sHttpContent.substr(pos1, pos2 - pos1);
 			pos1 = pos2 + 2;
 
-			colonPos = sLine.find(": ");
+			colonPos = sLine.find(':');
+			if (colonPos == string::npos)
+			{
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "head error: no colon<pos1=%d, pos2=%d>.", (uint32_t)pos1, (uint32_t)pos2);
+				return false;
+			}
 			sName = sLine.substr(0, colonPos);
 			if (sName.empty())
 			{
@@ -143,7 +148,10 @@ namespace lce
 				return false;
 			}
 
-			sValue = sLine.substr(colonPos + 2);
+			// the white space around the value is optional
+			sValue = sLine.substr(colonPos + 1);
+			sValue.erase(0, sValue.find_first_not_of(" \t"));
+			sValue.erase(sValue.find_last_not_of(" \t") + 1);
 
 			static const string BOUNDARY_STR("multipart/form-data; boundary=");
 			if (sBoundary.empty() && sName == "Content-Type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
-- 
2.43.0


From cbab5785d8b0b0583e56222ac56fa014fef92628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 026/156] fix: CHttpReader kept uploaded files of earlier
 requests

---
 include/CHttpReader.h | 1 +
 src/CHttpReader.cpp   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/CHttpReader.h b/include/CHttpReader.h
index 0e846db..4b76d2f 100755
--- a/include/CHttpReader.h
+++ b/include/CHttpReader.h
@@ -128,6 +128,7 @@ namespace lce
 			m_sHttpContent.clear();
 			m_sFile.clear();
 			m_sFileName.clear();
+			m_mapFiles.clear();
 		}
 
 	private:
diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index b2635d3..71d6503 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -9,6 +9,7 @@ namespace lce
 
 	CHttpReader::CHttpReader(void)
 	{
+		m_nCommand = GET;
 		memset(m_szNULL, 0, sizeof(m_szNULL));
 		memset(m_szErrMsg, 0, sizeof(m_szErrMsg));
 	}
@@ -187,6 +188,7 @@ namespace lce
 		m_mapHeadInfo.clear();
 		m_sFile.clear();
 		m_sFileName.clear();
+		m_mapFiles.clear();
 	}
 
 	string &CHttpReader::getCookie(const string &sName, string &sValue, const string &sDefVal) const
-- 
2.43.0


From dee1cd117787160290a2b4d624403a008f7beae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 027/156] fix: CHttpReader did not decode parameter names

---
 src/CHttpReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 71d6503..c39713e 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -374,7 +374,7 @@ namespace lce
 			equalPos = sTmp.find('=');
 			if (equalPos == string::npos)
 				continue;
-			m_mapValueList[sTmp.substr(0, equalPos)] = FormUrlDecode(sTmp.substr(1 + equalPos));
+			m_mapValueList[FormUrlDecode(sTmp.substr(0, equalPos))] = FormUrlDecode(sTmp.substr(1 + equalPos));
 		}
 	}
 
-- 
2.43.0


From 226af359443538ba1d0113cc268327ffcc5a523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 028/156] fix: CHttpReader recognized multipart bodies only for
 one spelling of the header and hid that header

---
 src/CHttpReader.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index c39713e..cb88da8 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -154,14 +154,27 @@ namespace lce
 			sValue.erase(0, sValue.find_first_not_of(" \t"));
 			sValue.erase(sValue.find_last_not_of(" \t") + 1);
 
-			static const string BOUNDARY_STR("multipart/form-data; boundary=");
-			if (sBoundary.empty() && sName == "Content-Type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
-			{
-				sBoundary = sValue.substr(BOUNDARY_STR.length());
-			}
-			else
+			sName = toLower(sName.c_str());
+			m_mapHeadInfo[sName] = sValue;
+
+			static const string MULTIPART_STR("multipart/form-data");
+			static const string BOUNDARY_STR("boundary=");
+			const string sLower = toLower(sValue.c_str());
+			if (sBoundary.empty() && sName == "content-type" && sLower.compare(0, MULTIPART_STR.length(), MULTIPART_STR) == 0)
 			{
-				m_mapHeadInfo[toLower(sName.c_str())] = sValue;
+				string::size_type boundaryPos = sLower.find(BOUNDARY_STR);
+				if (boundaryPos != string::npos)
+				{
+					sBoundary = sValue.substr(boundaryPos + BOUNDARY_STR.length());
+					if (!sBoundary.empty() && sBoundary[0] == '"')
+					{
+						sBoundary = sBoundary.substr(1, sBoundary.find('"', 1) - 1);
+					}
+					else
+					{
+						sBoundary = sBoundary.substr(0, sBoundary.find_first_of("; \t"));
+					}
+				}
 			}
 		}
 
-- 
2.43.0


From 0409b4e65ed6dbb9967a7705e1820ebf4df2222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 029/156] fix: CHttpReader altered, merged or lost the parts of
 multipart bodies

---
 src/CHttpReader.cpp | 70 ++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index cb88da8..82d5bdd 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -179,13 +179,16 @@ namespace lce
 		}
 
 		this->parseCookies();
-		this->parseValues();
 
 		if (m_nCommand == POST && !sBoundary.empty())
 		{
 			sBoundary.insert(0, "--");
 			this->parsePostFormData(sBoundary, headEndPos);
 		}
+		else
+		{
+			this->parseValues();
+		}
 
 		return bOk;
 	}
@@ -436,7 +439,8 @@ namespace lce
 		while (string::npos != pos1 && pos1 < m_sHttpContent.size())
 		{
 			string::size_type pos = 0;
-			string sNV = getStrBetween(m_sHttpContent, pos1, sBoundary, sBoundary, pos);
+			// the line end before a boundary belongs to the boundary
+			string sNV = getStrBetween(m_sHttpContent, pos1, sBoundary, "\r\n" + sBoundary, pos);
 
 			if (pos == string::npos || sNV.empty())
 			{
@@ -445,52 +449,66 @@ namespace lce
 
 			pos1 = pos + sNV.size();
 
-			static const string FORM_DATA("Content-Disposition: form-data; ");
-			if (sNV.substr(2, FORM_DATA.size()) != FORM_DATA)
+			string::size_type partEndPos = sNV.find("\r\n\r\n");
+			if (partEndPos == string::npos)
 			{
 				break;
 			}
 
-			sName = getStrBetween(sNV, 2, "name=\"", "\"", pos);
-			if (pos == string::npos || sName.empty())
+			// the head of the part, in any order and case, without the data
+			string sDisposition;
+			string sFileType;
+			string::size_type linePos = 2;
+			while (linePos < partEndPos + 2)
 			{
-				break;
+				string::size_type lineEndPos = sNV.find("\r\n", linePos);
+				const string sLine = sNV.substr(linePos, lineEndPos - linePos);
+				linePos = lineEndPos + 2;
+
+				string::size_type colonPos = sLine.find(':');
+				if (colonPos == string::npos)
+				{
+					continue;
+				}
+				string sHeadValue = sLine.substr(colonPos + 1);
+				sHeadValue.erase(0, sHeadValue.find_first_not_of(" \t"));
+				const string sHeadName = toLower(sLine.substr(0, colonPos).c_str());
+				if (sHeadName == "content-disposition")
+				{
+					sDisposition = sHeadValue;
+				}
+				else if (sHeadName == "content-type")
+				{
+					sFileType = sHeadValue;
+				}
 			}
 
-			pos = sNV.find("\r\n\r\n", pos + 1);
-			if (pos == string::npos)
+			static const string FORM_DATA("form-data;");
+			if (toLower(sDisposition.substr(0, FORM_DATA.size()).c_str()) != FORM_DATA)
 			{
 				break;
 			}
-			sValue = sNV.substr(pos + 4);
-			if (sValue.size() > 2)
+
+			sName = getStrBetween(sDisposition, 0, " name=\"", "\"", pos);
+			if (pos == string::npos || sName.empty())
 			{
-				sValue.erase(sValue.size() - 2);
+				break;
 			}
-			m_mapValueList[sName] = FormUrlDecode(sValue);
-			m_sFileName = getStrBetween(sNV, 0, "filename=\"", "\"", pos);
+
+			sValue = sNV.substr(partEndPos + 4);
+			m_mapValueList[sName] = sValue;
+			m_sFileName = getStrBetween(sDisposition, 0, "filename=\"", "\"", pos);
 			if (pos == string::npos || m_sFileName.empty())
 			{
 				continue;
 			}
 
-			string sFileType = getStrBetween(sNV, pos, "Content-Type: ", "\r\n", pos);
-			if (pos == string::npos || sFileType.empty())
-			{
-				continue;
-			}
 			SFile stFile;
 			m_mapFiles[sName] = stFile;
 
 			MAP_FILE::iterator it = m_mapFiles.find(sName);
 
-			it->second.sData = sNV.substr(pos + sFileType.size() + 4);
-
-			if (it->second.sData.size() > 2)
-			{
-				it->second.sData.erase(it->second.sData.size() - 2);
-			}
-
+			it->second.sData = sValue;
 			it->second.sContentType = sFileType;
 			it->second.sName = m_sFileName;
 		}
-- 
2.43.0


From 8fb5a8deb0b3e47a47b144d88351c037e31eb1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 030/156] fix: CAnyValue 64 bit and unsigned conversions
 returned a truncated int

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index b8ba795..4f80913 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -256,21 +256,21 @@ namespace lce
             return 0;
         }
 
-        int asInt64() const
+        int64_t asInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<int64_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt() const
+        uint32_t asUInt() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint32_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt64() const
+        uint64_t asUInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint64_t>(m_value.integer);
-- 
2.43.0


From 01072a6c3e14e97ab49234ea891c3cfcdb1012e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 031/156] fix: CAnyValue accepted negative array indices

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4f80913..a083833 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -423,7 +423,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
@@ -435,7 +435,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
-- 
2.43.0


From 226c35d1960b7494a85ef182b69a60d6aca345f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 032/156] fix: CAnyValue pop on an empty array corrupted it

---
 include/CAnyValue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index a083833..09bd00d 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -555,7 +555,8 @@ namespace lce
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
                 m_bHasData = true;
-                m_value.vec->pop_back();
+                if (!m_value.vec->empty())
+                    m_value.vec->pop_back();
             }
         }
         void push_front(const CAnyValue &oValue)
@@ -573,7 +574,8 @@ namespace lce
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
                 m_bHasData = true;
-                m_value.vec->pop_front();
+                if (!m_value.vec->empty())
+                    m_value.vec->pop_front();
             }
         }
 
-- 
2.43.0


From 844a905c670c0a6fce810cf6423eece1100cea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 033/156] fix: CAnyValue did not find or erase members under
 keys it had shortened

---
 include/CAnyValue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 09bd00d..88d3c14 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -449,7 +449,7 @@ namespace lce
             static CAnyValue m_null;
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(sName);
+                MapType::iterator it = m_value.map->find(sName.size() > 255 ? sName.substr(0, 255) : sName);
                 if (it != m_value.map->end())
                     return it->second;
             }
@@ -462,7 +462,7 @@ namespace lce
             // std::string sName(pszName);
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(pszName);
+                MapType::iterator it = m_value.map->find(BufType(pszName).substr(0, 255));
                 if (it != m_value.map->end())
                     return it->second;
             }
@@ -503,7 +503,7 @@ namespace lce
         {
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(sName);
+                MapType::iterator it = m_value.map->find(sName.size() > 255 ? sName.substr(0, 255) : sName);
                 if (it != m_value.map->end())
                     return true;
             }
@@ -583,7 +583,7 @@ namespace lce
         {
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                m_value.map->erase(sName);
+                m_value.map->erase(sName.size() > 255 ? sName.substr(0, 255) : sName);
             }
         }
 
-- 
2.43.0


From afd24095ef69ef85d2b2de3d550debba24663262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 034/156] fix: AnyHeader cut user ids to 32 bit and dropped
 client addresses

---
 include/CAnyPackage.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyPackage.h b/include/CAnyPackage.h
index 41587ba..962bf54 100644
--- a/include/CAnyPackage.h
+++ b/include/CAnyPackage.h
@@ -51,11 +51,11 @@ namespace lce
         void setFormat(uint32_t dwFormat) { this->dwFormat = htonl(dwFormat); }
         uint32_t getFormat() { return ntohl(dwFormat); }
 
-        void setUid(uint64_t ddwUid) { this->ddwUid = htonl(ddwUid); }
-        uint64_t getUid() { return ntohl(ddwUid); }
+        void setUid(uint64_t ddwUid) { this->ddwUid = htonll(ddwUid); }
+        uint64_t getUid() { return ntohll(ddwUid); }
 
-        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonll(dwClientIp); }
-        uint32_t getClientIp() { return ntohll(dwClientIp); }
+        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonl(dwClientIp); }
+        uint32_t getClientIp() { return ntohl(dwClientIp); }
 
         void setErrno(uint32_t dwErrno) { this->dwErrno = htonl(dwErrno); }
         uint32_t getErrno() { return ntohl(dwErrno); }
-- 
2.43.0


From fc26612b1398e006da5adda98c329b4f284e6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 035/156] fix: CSocketBuf never grew from size 0 and shrank
 below its content when the initial size exceeds the maximum

---
 include/CSocketBuf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CSocketBuf.h b/include/CSocketBuf.h
index 93c0233..e1fa440 100644
--- a/include/CSocketBuf.h
+++ b/include/CSocketBuf.h
@@ -17,7 +17,7 @@ namespace lce
 		}
 
 		CSocketBuf()
-			: m_iDataBeginPos(0), m_iDataEndPos(0), m_iDataAllowMaxSize(0), m_iInitSize(0)
+			: m_iBufSize(0), m_iDataBeginPos(0), m_iDataEndPos(0), m_iDataAllowMaxSize(0), m_iInitSize(0)
 		{
 			m_pszBuf = NULL;
 		}
@@ -165,11 +165,11 @@ namespace lce
 
 		void incBuf()
 		{
-			if (m_iBufSize * 2 < m_iDataAllowMaxSize)
+			if (m_iBufSize > 0 && m_iBufSize < m_iDataAllowMaxSize / 2)
 			{
 				reSize(m_iBufSize * 2);
 			}
-			else
+			else if (m_iBufSize < m_iDataAllowMaxSize)
 			{
 				reSize(m_iDataAllowMaxSize);
 			}
@@ -203,7 +203,7 @@ namespace lce
 				return true;
 
 			char *pszNewBuf = new char[iSize];
-			assert(getSize() < iSize);
+			assert(getSize() <= iSize);
 			if (NULL != pszNewBuf)
 			{
 				if (iSize >= getSize())
-- 
2.43.0


From a41aef5d678c0a4c78fa5524490e56d29274ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 036/156] fix: CHttpPackageFilter read past the received bytes,
 accepted bad lengths and only knew one spelling of Content-Length

---
 include/CHttpPackageFilter.h | 132 +++++++++++++++++------------------
 1 file changed, 64 insertions(+), 68 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index 47f2f20..3a8d733 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -1,6 +1,11 @@
 #ifndef __NCE_CHTTPPACKAGE_H
 #define __NCE_CHTTPPACKAGE_H
 
+#include <limits.h>
+#include <stdint.h>
+#include <string.h>
+#include <strings.h>
+
 namespace lce
 {
 	class CHttpPackageFilter : public CPackageFilter
@@ -14,81 +19,72 @@ namespace lce
 		// return value: -2 invalid pkt, -1 pkt haven't received whole pkt, 0 normal
 		inline int isWholePkg(const char *pszData, const int iDataSize, int &iRealPkgLen, int &iPkgLen)
 		{
-			int iRe = -1;
-			const char *pFirstLine = ::strstr(pszData, "\r\n");
-			if (NULL != pFirstLine)
-			{
-				const char *pEnd = ::strstr(pszData, "\r\n\r\n") + sizeof("\r\n\r\n") - 1;
-				if (NULL != pEnd)
-				{
+			int iHeadLen = findHeadEnd(pszData, iDataSize);
+			if (iHeadLen < 0)
+				return -1;
 
-					bool bRecvData = false;
-					const char *pHTTP = ::strstr(pszData, "HTTP");
-					if (pHTTP == pszData)
-					{
-						bRecvData = true;
-					}
-
-					int iHeadLen = (int)(pEnd - pszData);
-					int iHTMLLen = iHeadLen;
-
-					if (bRecvData)
-					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
-						if (NULL != pContentLenPos)
-						{
-							if (pEnd > pContentLenPos)
-							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
-								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
-								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
-								}
-							}
-
-							if (iHTMLLen <= iDataSize && iHTMLLen > iHeadLen)
-							{
-								iRealPkgLen = iPkgLen = iHTMLLen;
-								iRe = 0;
-							}
-						}
-						if (iHTMLLen <= iDataSize && iHTMLLen > 0)
-						{
-							iRealPkgLen = iPkgLen = iHTMLLen;
-							iRe = 0;
-						}
-					}
-					else
-					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
-						if (NULL != pContentLenPos)
-						{
-							if (pEnd > pContentLenPos)
-							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
-								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
-								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
-								}
-							}
-						}
-						if (iHTMLLen <= iDataSize && iHTMLLen > 0)
-						{
-							iRealPkgLen = iPkgLen = iHTMLLen;
-							iRe = 0;
-						}
-					}
-				}
-			}
-			return iRe;
+			int iContentLen = 0;
+			if (!getContentLen(pszData, iHeadLen, iContentLen) || iContentLen > INT_MAX - iHeadLen)
+				return -2;
+
+			if (iHeadLen + iContentLen > iDataSize)
+				return -1;
+
+			iRealPkgLen = iPkgLen = iHeadLen + iContentLen;
+			return 0;
 		}
 
 		const char *getRealPkgData(const char *pszData, const int iDataSize)
 		{
 			return pszData;
 		}
+
+	private:
+		// length of the head including the empty line, -1 if it is not complete
+		static int findHeadEnd(const char *pszData, const int iDataSize)
+		{
+			for (int i = 0; i + 4 <= iDataSize; i++)
+			{
+				if (memcmp(pszData + i, "\r\n\r\n", 4) == 0)
+					return i + 4;
+			}
+			return -1;
+		}
+
+		// false: the head has a Content-Length which is not a valid length
+		static bool getContentLen(const char *pszHead, const int iHeadLen, int &iContentLen)
+		{
+			static const char szName[] = "Content-Length:";
+			const int iNameLen = sizeof(szName) - 1;
+
+			for (int i = 0; i + 2 + iNameLen < iHeadLen; i++)
+			{
+				if (memcmp(pszHead + i, "\r\n", 2) != 0 || strncasecmp(pszHead + i + 2, szName, iNameLen) != 0)
+					continue;
+
+				int j = i + 2 + iNameLen;
+				while (pszHead[j] == ' ' || pszHead[j] == '\t')
+					j++;
+
+				if (pszHead[j] < '0' || pszHead[j] > '9')
+					return false;
+
+				int64_t ddwLen = 0;
+				for (; pszHead[j] >= '0' && pszHead[j] <= '9'; j++)
+				{
+					ddwLen = ddwLen * 10 + (pszHead[j] - '0');
+					if (ddwLen > INT_MAX)
+						return false;
+				}
+
+				while (pszHead[j] == ' ' || pszHead[j] == '\t')
+					j++;
+
+				iContentLen = (int)ddwLen;
+				return pszHead[j] == '\r';
+			}
+			return true;
+		}
 	};
 
 };
-- 
2.43.0


From 6e27347e7ea257dd0a639b92674b405660ea9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 037/156] fix: CEvent::addMessage deadlocked when 64k messages
 were pending

---
 src/CEvent.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 00fb1e6..46a6378 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -84,6 +84,14 @@ namespace lce
             return -1;
         }
 
+        // a full pipe must not block addMessage, it wakes up run() anyway
+        iOpts = fcntl(m_iMsgFd[1], F_GETFL);
+        if (iOpts < 0 || fcntl(m_iMsgFd[1], F_SETFL, iOpts | O_NONBLOCK) < 0)
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
+            return -1;
+        }
+
         addFdEvent(m_iMsgFd[0], CEvent::EV_READ, NULL, NULL); // 自定义事件通知
 
         m_bInit = true;
@@ -256,10 +264,11 @@ namespace lce
         m_queMsgEvents.push(stMsgEvent);
 
         int iFlag = write(m_iMsgFd[1], "1", 1);
+        int iErrno = errno;
 
         ::pthread_mutex_unlock(&m_lock);
 
-        if (iFlag < 0)
+        if (iFlag < 0 && iErrno != EAGAIN)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::addMessage write error", __FILE__, __LINE__);
             return -1;
@@ -338,8 +347,9 @@ namespace lce
                             ::pthread_mutex_lock(&m_lock);
 
                             int iFlag = read(m_iMsgFd[0], szBuf, 1);
+                            (void)iFlag; // there may be more messages than bytes
 
-                            if (!m_queMsgEvents.empty() && iFlag > 0)
+                            if (!m_queMsgEvents.empty())
                             {
                                 stMsgEvent = m_queMsgEvents.front();
                                 m_queMsgEvents.pop();
-- 
2.43.0


From a7b4066398d9499e9035060008e028be0c066968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 038/156] fix: CEvent::stop was a data race with run and was
 only noticed at the next event

---
 include/CEvent.h | 3 ++-
 src/CEvent.cpp   | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index 0801ab0..02e5bce 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -8,6 +8,7 @@
 #include <unistd.h>
 #include <errno.h>
 #include <string.h>
+#include <atomic>
 #include <queue>
 #include <set>
 #include <unordered_map>
@@ -109,7 +110,7 @@ namespace lce
         multiset<StTimeEvent, cmpTimer> m_setStTimeEvents;
         MAP_TIME_INDEX m_mapTimeEventIndexs;
         char m_szErrMsg[1024];
-        bool m_bRun;
+        std::atomic<bool> m_bRun;
         bool m_bInit;
         uint32_t m_dwMaxFdNum;
         pthread_mutex_t m_lock;
diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 46a6378..4dd106c 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -389,6 +389,11 @@ namespace lce
     int CEvent::stop()
     {
         m_bRun = false;
+        if (m_iMsgFd[1] >= 0)
+        {
+            int iFlag = write(m_iMsgFd[1], "1", 1); // wake up run()
+            (void)iFlag;
+        }
         return 0;
     }
 
-- 
2.43.0


From f09139736c757994f4e4caff77d7f3187f942ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 039/156] fix: CEvent timers fired early or late when the
 system time was changed

---
 include/CEvent.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index 02e5bce..26b7b0d 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -18,6 +18,7 @@
 #include <fcntl.h>
 #include <iostream>
 #include <sys/time.h>
+#include <time.h>
 
 using namespace std;
 
@@ -97,9 +98,9 @@ namespace lce
     private:
         static inline uint64_t getMillSecsNow()
         {
-            struct timeval stNow;
-            gettimeofday(&stNow, NULL);
-            return (stNow.tv_sec * 1000 + stNow.tv_usec / 1000);
+            struct timespec stNow;
+            clock_gettime(CLOCK_MONOTONIC, &stNow);
+            return ((uint64_t)stNow.tv_sec * 1000 + stNow.tv_nsec / 1000000);
         }
 
     private:
-- 
2.43.0


From ff221e451cb43bb9b114ee8af9bfbbcbf7a505d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 040/156] fix: CEvent delivered pending events of a closed
 descriptor to its next user, and kept the state of a failed registration

---
 include/CEvent.h |  6 ++++++
 src/CEvent.cpp   | 26 +++++++++++++++++---------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index 26b7b0d..279ab0f 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -50,6 +50,7 @@ namespace lce
         typedef struct
         {
             int iEventType;
+            uint32_t dwSeq; // registration the pending events belong to
             HandlerEvent onRead;
             HandlerEvent onWrite;
             void *pClientRData;
@@ -103,6 +104,11 @@ namespace lce
             return ((uint64_t)stNow.tv_sec * 1000 + stNow.tv_nsec / 1000000);
         }
 
+        inline uint64_t makeEventData(int iFd) const
+        {
+            return ((uint64_t)m_stFdEvents[iFd].dwSeq << 32) | (uint32_t)iFd;
+        }
+
     private:
         int m_iMsgFd[2];
         StFdEvent *m_stFdEvents;
diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 4dd106c..2516734 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -58,6 +58,7 @@ namespace lce
         for (int i = 0; i < (int)dwMaxFdNum; i++)
         {
             m_stFdEvents[i].iEventType = EV_DONE;
+            m_stFdEvents[i].dwSeq = 0;
             m_stFdEvents[i].pClientRData = NULL;
             m_stFdEvents[i].pClientWData = NULL;
         }
@@ -111,8 +112,12 @@ namespace lce
 
         stEvent.events = 0;
 
+        int iOldEventType = m_stFdEvents[iWatchFd].iEventType;
         int iOP = m_stFdEvents[iWatchFd].iEventType == EV_DONE ? EPOLL_CTL_ADD : EPOLL_CTL_MOD;
 
+        if (iOP == EPOLL_CTL_ADD)
+            m_stFdEvents[iWatchFd].dwSeq++;
+
         m_stFdEvents[iWatchFd].iEventType = m_stFdEvents[iWatchFd].iEventType | iEventType;
 
         if (m_stFdEvents[iWatchFd].iEventType & EV_READ)
@@ -120,8 +125,7 @@ namespace lce
         if (m_stFdEvents[iWatchFd].iEventType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
-        stEvent.data.u64 = 0; /* avoid valgrind warning */
-        stEvent.data.fd = iWatchFd;
+        stEvent.data.u64 = makeEventData(iWatchFd);
 
         if (iEventType & EV_READ)
         {
@@ -138,6 +142,7 @@ namespace lce
         if (epoll_ctl(m_stEPollState.iEPollFd, iOP, iWatchFd, &stEvent) == -1)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::addFdEvent epoll_ctl error", __FILE__, __LINE__);
+            m_stFdEvents[iWatchFd].iEventType = iOldEventType;
             return -1;
         }
 
@@ -166,8 +171,7 @@ namespace lce
         if (m_stFdEvents[iWatchFd].iEventType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
-        stEvent.data.u64 = 0; /* avoid valgrind warning */
-        stEvent.data.fd = iWatchFd;
+        stEvent.data.u64 = makeEventData(iWatchFd);
 
         if (m_stFdEvents[iWatchFd].iEventType != EV_DONE)
         {
@@ -330,12 +334,16 @@ namespace lce
 
             for (int i = 0; i < iEventNum; i++)
             {
+                int iFd = (int)(uint32_t)m_stEPollState.stEvents[i].data.u64;
+
+                if (m_stEPollState.stEvents[i].data.u64 != makeEventData(iFd))
+                    continue; // the descriptor was closed and watched again by an earlier handler
 
                 if ((m_stEPollState.stEvents[i].events & EPOLLIN) ||
                     (m_stEPollState.stEvents[i].events & EPOLLERR) ||
                     (m_stEPollState.stEvents[i].events & EPOLLHUP))
                 {
-                    if (m_stEPollState.stEvents[i].data.fd == m_iMsgFd[0]) // 自定义事件
+                    if (iFd == m_iMsgFd[0]) // 自定义事件
                     {
                         char szBuf[1];
 
@@ -369,17 +377,17 @@ namespace lce
                     }
                     else
                     {
-                        StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
+                        StFdEvent &stFdEvent = m_stFdEvents[iFd];
                         if ((stFdEvent.iEventType & EV_READ) == EV_READ)
-                            stFdEvent.onRead(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientRData);
+                            stFdEvent.onRead(iFd, stFdEvent.pClientRData);
                     }
                 }
                 if (m_stEPollState.stEvents[i].events & EPOLLOUT)
                 {
 
-                    StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
+                    StFdEvent &stFdEvent = m_stFdEvents[iFd];
                     if ((stFdEvent.iEventType & EV_WRITE) == EV_WRITE)
-                        stFdEvent.onWrite(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientWData);
+                        stFdEvent.onWrite(iFd, stFdEvent.pClientWData);
                 }
             }
         }
-- 
2.43.0


From 62613740630aa83ba67dfea806504265ffc69597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 041/156] fix: writing to a connection reset by the peer killed
 the process with SIGPIPE

---
 src/Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index ab97c34..09b1b30 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -58,7 +58,8 @@ namespace lce
 
     int Send(int iFd, const char *buf, int count)
     {
-        return ::send(iFd, buf, count, 0);
+        // a peer that went away is an error, not a signal
+        return ::send(iFd, buf, count, MSG_NOSIGNAL);
     }
 
     int CreateTcpSock()
-- 
2.43.0


From e22f59ea3ca184490954cf940e81d579f916b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 042/156] fix: CCommMgr accepted one client more than the
 maximum and indexed its tables with descriptors beyond them

---
 src/CCommMgr.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index b7004de..2fdd638 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -441,7 +441,7 @@ namespace lce
 
             stSession.ddwBeginTime = lce::GetTickCount();
 
-            if (m_dwClientNum > m_dwMaxClient)
+            if (m_dwClientNum >= m_dwMaxClient || iClientSock >= (int)m_vecClients.size())
             {
                 snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onAccept %s,%d,max clients errno=%d,msg=%s", __FILE__, __LINE__, errno, strerror(errno));
 
@@ -777,7 +777,7 @@ namespace lce
 
     int CCommMgr::close(int iFd)
     {
-        if (m_vecClients[iFd].iFd != 0)
+        if (!isClose(iFd))
         {
             StClientInfo *pstClientInfo = &m_vecClients[iFd];
 
@@ -811,7 +811,7 @@ namespace lce
 
     inline bool CCommMgr::isClose(int iFd)
     {
-        return (m_vecClients[iFd].iFd == 0);
+        return iFd < 0 || iFd >= (int)m_vecClients.size() || m_vecClients[iFd].iFd == 0;
     }
 
     int CCommMgr::connect(int iSrvId, const string &sIp, uint16_t wPort, void *pData)
@@ -841,6 +841,13 @@ namespace lce
                 return -1;
             }
 
+            if (iFd >= (int)m_vecClients.size())
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,too many descriptors", __FILE__, __LINE__);
+                lce::Close(iFd);
+                return -1;
+            }
+
             m_vecClients[iFd].iSrvId = pstServerInfo->iSrvId;
 
             lce::SetReUseAddr(iFd);
-- 
2.43.0


From 960c0a4d39dd39010daf524a419524cc2690b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 043/156] fix: CCommMgr leaked the client entry of a connection
 that could not be watched

---
 src/CCommMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 2fdd638..375739c 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -474,9 +474,9 @@ namespace lce
 
             if (m_oCEvent.addFdEvent(iClientSock, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
             {
+                close(iClientSock);
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
-                lce::Close(iClientSock);
                 continue;
             }
         }
@@ -514,6 +514,7 @@ namespace lce
             {
                 if (m_oCEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
+                    close(iFd);
                     if (pstServerInfo->pProcessor != NULL)
                         pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
                 }
-- 
2.43.0


From 19cf7d2edef0296e6339a5c3f8e530c7136123e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 044/156] fix: CCommMgr answered and closed a later connection
 through the session of an earlier one on the same descriptor

---
 include/CCommMgr.h |  4 +++-
 include/Define.h   |  2 ++
 src/CCommMgr.cpp   | 32 +++++++++++++++++++++++---------
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/CCommMgr.h b/include/CCommMgr.h
index 872ef40..ec9e23a 100755
--- a/include/CCommMgr.h
+++ b/include/CCommMgr.h
@@ -95,8 +95,9 @@ namespace lce
         int close(int iFd);
         int write(int iFd);
         inline bool isClose(int iFd);
+        inline bool isClose(const StSession &stSession);
 
-        CCommMgr() {}
+        CCommMgr() : m_ddwConnId(0) {}
         CCommMgr &operator=(const CCommMgr &);
         CCommMgr(const CCommMgr &);
 
@@ -109,6 +110,7 @@ namespace lce
         static CCommMgr *m_pInstance;
         uint32_t m_dwMaxClient;
         uint32_t m_dwClientNum;
+        uint64_t m_ddwConnId;
     };
 };
 
diff --git a/include/Define.h b/include/Define.h
index e2aa5a6..ef82842 100644
--- a/include/Define.h
+++ b/include/Define.h
@@ -16,6 +16,7 @@ namespace lce
 		void *pData;
 		struct sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnId; // identifies the connection, descriptors are reused. 0: any
 		int64_t getDelayTime()
 		{
 			uint64_t ddwCurTime = lce::GetTickCount();
@@ -98,6 +99,7 @@ namespace lce
 		CSocketBuf *pSocketSendBuf;
 		sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnId;
 		~StClientInfo()
 		{
 			if (pSocketRecvBuf != NULL)
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 375739c..c453a39 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -311,6 +311,7 @@ namespace lce
         stSession.ddwBeginTime = lce::GetTickCount();
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
 
         if (pstClientInfo->pSocketRecvBuf == NULL)
@@ -362,8 +363,8 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
-                if (isClose(iFd))
-                    break;
+                if (isClose(stSession))
+                    return;
 
                 pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
             }
@@ -381,7 +382,7 @@ namespace lce
 
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onClose(stSession);
-            close(iFd);
+            close(stSession);
         }
         else
         {
@@ -390,7 +391,7 @@ namespace lce
             {
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onClose(stSession);
-                close(iFd);
+                close(stSession);
             }
             else if (errno == EAGAIN || errno == EINTR)
             {
@@ -457,6 +458,7 @@ namespace lce
             pstClientInfo->iSrvId = pstServerInfo->iSrvId;
             pstClientInfo->stClientAddr = stClientAddr;
             pstClientInfo->iFd = iClientSock;
+            pstClientInfo->ddwConnId = ++m_ddwConnId;
 
             m_dwClientNum++;
 
@@ -464,12 +466,13 @@ namespace lce
             lce::SetNoneBlock(iClientSock);
 
             stSession.iFd = iClientSock;
+            stSession.ddwConnId = pstClientInfo->ddwConnId;
             stSession.stClientAddr = pstClientInfo->stClientAddr;
 
             if (pstServerInfo->pProcessor)
                 pstServerInfo->pProcessor->onConnect(stSession, true, NULL);
 
-            if (isClose(iClientSock))
+            if (isClose(stSession))
                 continue;
 
             if (m_oCEvent.addFdEvent(iClientSock, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -503,6 +506,7 @@ namespace lce
         stSession.ddwBeginTime = lce::GetTickCount();
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
 
         if (error == 0)
@@ -510,7 +514,7 @@ namespace lce
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-            if (!isClose(iFd))
+            if (!isClose(stSession))
             {
                 if (m_oCEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
@@ -524,14 +528,14 @@ namespace lce
         {
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, false, pData);
-            close(iFd);
+            close(stSession);
         }
     }
 
     int CCommMgr::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
     {
 
-        if (isClose(stSession.iFd))
+        if (isClose(stSession))
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
             return -1;
@@ -711,6 +715,7 @@ namespace lce
         stSession.stClientAddr = pstClientInfo->stClientAddr;
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         int iSendBufSize = pstClientInfo->pSocketSendBuf->getSize();
 
@@ -773,6 +778,8 @@ namespace lce
     int CCommMgr::close(const StSession &stSession)
     {
         int iFd = stSession.iFd;
+        if (isClose(stSession))
+            return 0;
         return close(iFd);
     }
 
@@ -815,6 +822,11 @@ namespace lce
         return iFd < 0 || iFd >= (int)m_vecClients.size() || m_vecClients[iFd].iFd == 0;
     }
 
+    inline bool CCommMgr::isClose(const StSession &stSession)
+    {
+        return isClose(stSession.iFd) || (stSession.ddwConnId != 0 && stSession.ddwConnId != m_vecClients[stSession.iFd].ddwConnId);
+    }
+
     int CCommMgr::connect(int iSrvId, const string &sIp, uint16_t wPort, void *pData)
     {
         if (iSrvId < 0 || iSrvId > (int)m_vecServers.size() - 1)
@@ -855,6 +867,7 @@ namespace lce
             lce::SetNoneBlock(iFd);
 
             m_vecClients[iFd].iFd = iFd;
+            m_vecClients[iFd].ddwConnId = ++m_ddwConnId;
             m_vecClients[iFd].stClientAddr.sin_family = AF_INET;
             m_vecClients[iFd].stClientAddr.sin_port = htons(wPort);
             m_vecClients[iFd].stClientAddr.sin_addr.s_addr = inet_addr(sIp.c_str());
@@ -868,12 +881,13 @@ namespace lce
                 stSession.ddwBeginTime = lce::GetTickCount();
                 stSession.iFd = iFd;
                 stSession.iSvrId = pstServerInfo->iSrvId;
+                stSession.ddwConnId = m_vecClients[iFd].ddwConnId;
                 stSession.stClientAddr = m_vecClients[iFd].stClientAddr;
 
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-                if (isClose(iFd))
+                if (isClose(stSession))
                 {
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
-- 
2.43.0


From 1351124242b4c9bba33745f8a993ab27fed1c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 045/156] fix: CCommMgr::write dropped a pending close request,
 or set one for data it refused

---
 src/CCommMgr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index c453a39..9ce7176 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -459,6 +459,7 @@ namespace lce
             pstClientInfo->stClientAddr = stClientAddr;
             pstClientInfo->iFd = iClientSock;
             pstClientInfo->ddwConnId = ++m_ddwConnId;
+            pstClientInfo->bNeedClose = false;
 
             m_dwClientNum++;
 
@@ -545,7 +546,7 @@ namespace lce
 
         StServerInfo *pstServerInfo = m_vecServers[stSession.iSvrId];
 
-        pstClientInfo->bNeedClose = bClose;
+        bClose = bClose || pstClientInfo->bNeedClose; // an earlier write asked for it
         int iSendBufSize = 0;
         int iSendSize = 0;
 
@@ -568,6 +569,7 @@ namespace lce
                         return -1;
                     }
 
+                    pstClientInfo->bNeedClose = bClose;
                     if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                     {
                         snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
@@ -601,6 +603,7 @@ namespace lce
                         return -1;
                     }
 
+                    pstClientInfo->bNeedClose = bClose;
                     if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                     {
                         snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
@@ -640,6 +643,7 @@ namespace lce
                     return -1;
                 }
 
+                pstClientInfo->bNeedClose = bClose;
                 if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
@@ -659,6 +663,7 @@ namespace lce
                             return -1;
                         }
 
+                        pstClientInfo->bNeedClose = bClose;
                         if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                         {
                             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
@@ -687,6 +692,7 @@ namespace lce
                             return -1;
                         }
 
+                        pstClientInfo->bNeedClose = bClose;
                         if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                         {
                             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
@@ -868,6 +874,7 @@ namespace lce
 
             m_vecClients[iFd].iFd = iFd;
             m_vecClients[iFd].ddwConnId = ++m_ddwConnId;
+            m_vecClients[iFd].bNeedClose = false;
             m_vecClients[iFd].stClientAddr.sin_family = AF_INET;
             m_vecClients[iFd].stClientAddr.sin_port = htons(wPort);
             m_vecClients[iFd].stClientAddr.sin_addr.s_addr = inet_addr(sIp.c_str());
-- 
2.43.0


From 1833600fb367950809f4928fa37363324b1d5b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 046/156] fix: CCommMgr::write cut data out of the stream when
 the rest did not fit the send buffer

---
 src/CCommMgr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 9ce7176..2207921 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -565,6 +565,7 @@ namespace lce
 
                     if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
                     {
+                        ::shutdown(stSession.iFd, SHUT_RDWR); // a part of the data is sent already, end the stream here
                         snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
                         return -1;
                     }
@@ -659,6 +660,7 @@ namespace lce
                     {
                         if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
                         {
+                            ::shutdown(stSession.iFd, SHUT_RDWR); // a part of the data is sent already, end the stream here
                             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
                             return -1;
                         }
-- 
2.43.0


From 11f2327f84a949f91ce6f96e39389940486f6fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 047/156] fix: CCommMgr::write took an empty write for an error

---
 src/CCommMgr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 2207921..5f007bf 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -554,7 +554,7 @@ namespace lce
         {
             iSendSize = lce::Send(stSession.iFd, pszData, iSize);
 
-            if (iSendSize > 0)
+            if (iSendSize >= 0)
             {
                 if (iSendSize < iSize)
                 {
@@ -654,7 +654,7 @@ namespace lce
             else
             {
                 int iSendSize = lce::Send(stSession.iFd, pszData, iSize);
-                if (iSendSize > 0)
+                if (iSendSize >= 0)
                 {
                     if (iSendSize < iSize)
                     {
-- 
2.43.0


From 2685bcf413ba601902531360ed9218ba83325d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 048/156] fix: CCommMgr::rmSrv left the clients of the removed
 server behind, their next event crashed

---
 src/CCommMgr.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 5f007bf..6d7659c 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -273,6 +273,9 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
+                if (pstClientInfo->pSocketRecvBuf == NULL)
+                    return; // the server was removed
+
                 pstClientInfo->pSocketRecvBuf->reset();
                 break;
             }
@@ -1006,8 +1009,19 @@ namespace lce
             return -1;
         }
 
+        for (size_t i = 0; i < m_vecClients.size(); i++)
+        {
+            if (m_vecClients[i].iFd != 0 && m_vecClients[i].iSrvId == iSrvId)
+                close((int)i);
+        }
+
         if (pstServerInfo->iFd > 0)
         {
+            if (pstServerInfo->iType == SRV_UDP)
+            {
+                delete m_vecClients[pstServerInfo->iFd].pSocketRecvBuf;
+                m_vecClients[pstServerInfo->iFd].pSocketRecvBuf = NULL;
+            }
             m_oCEvent.delFdEvent(pstServerInfo->iFd, CEvent::EV_READ | CEvent::EV_WRITE);
             lce::Close(pstServerInfo->iFd);
         }
@@ -1030,7 +1044,10 @@ namespace lce
 
         for (vector<StServerInfo *>::iterator it = m_vecServers.begin(); it != m_vecServers.end(); ++it)
         {
-            lce::Close((*it)->iFd);
+            if (*it == NULL)
+                continue;
+            if ((*it)->iFd > 0)
+                lce::Close((*it)->iFd);
             delete (*it);
         }
     }
-- 
2.43.0


From 63d9523a605f634d9528a7ddbdfd2a9d330ecb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 049/156] fix: CCommMgr never read from a connection that was
 established at once

---
 src/CCommMgr.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 6d7659c..f6cb544 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -904,6 +904,15 @@ namespace lce
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
                 }
+
+                if (m_oCEvent.addFdEvent(iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), &m_vecClients[iFd]) != 0)
+                {
+                    close(iFd);
+                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error:%s", __FILE__, __LINE__, m_oCEvent.getErrorMsg());
+                    if (pstServerInfo->pProcessor != NULL)
+                        pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_SOCKET);
+                    return -1;
+                }
                 return iFd;
             }
             else
-- 
2.43.0


From 29a04f58563f86ef03802e4e18612c51509e02ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 050/156] fix: CCommMgr cut UDP datagrams longer than the
 initial receive buffer

---
 src/CCommMgr.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index f6cb544..2c5d203 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -239,15 +239,18 @@ namespace lce
         }
 
         int iSize = 0;
+        char cPeek;
+        int iNeedSize = ::recv(iFd, &cPeek, sizeof(cPeek), MSG_PEEK | MSG_TRUNC); // size of the datagram
 
-        if (pstClientInfo->pSocketRecvBuf->getFreeSize() == 0)
+        while (pstClientInfo->pSocketRecvBuf->getFreeSize() < iNeedSize && pstClientInfo->pSocketRecvBuf->getBufSize() < pstClientInfo->pSocketRecvBuf->getBufMaxSize())
         {
             pstClientInfo->pSocketRecvBuf->addFreeBuf();
         }
 
-        if (pstClientInfo->pSocketRecvBuf->getFreeSize() == 0)
+        if (pstClientInfo->pSocketRecvBuf->getFreeSize() < iNeedSize)
         {
             // print error no buf size
+            ::recv(iFd, &cPeek, sizeof(cPeek), 0);
             pstClientInfo->pSocketRecvBuf->reset();
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,socket buf no memory", __FILE__, __LINE__);
             if (pstServerInfo->pProcessor != NULL)
-- 
2.43.0


From 3e3d99b03b0c231afb8c73efb9068ece9c647e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 051/156] fix: a datagram for a UDP server without package
 filter crashed

---
 src/CCommMgr.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 2c5d203..19391f9 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -266,6 +266,15 @@ namespace lce
         {
             pstClientInfo->pSocketRecvBuf->addData(iSize);
 
+            if (pstServerInfo->pPackageFilter == NULL)
+            {
+                pstClientInfo->pSocketRecvBuf->reset();
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,package filter is null", __FILE__, __LINE__);
+                if (pstServerInfo->pProcessor != NULL)
+                    pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_PKG_FILTER);
+                return;
+            }
+
             int iWholePkgFlag = 0;
             int iRealPkgLen = 0;
             int iPkgLen = 0;
-- 
2.43.0


From 1f833cf90a1bd6f319447723e94fbac8dbb97474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 052/156] fix: CEvent slept for ever or spun when the next
 timer was more than 24 days away

---
 src/CEvent.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 2516734..3afaa6c 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -1,4 +1,5 @@
 #include "CEvent.h"
+#include <limits.h>
 
 using namespace std;
 namespace lce
@@ -330,6 +331,9 @@ namespace lce
                 }
             }
 
+            if (ddwExpire > INT_MAX)
+                ddwExpire = INT_MAX;
+
             int iEventNum = epoll_wait(m_stEPollState.iEPollFd, m_stEPollState.stEvents, EPOLL_MAX_EVENT, ddwExpire);
 
             for (int i = 0; i < iEventNum; i++)
-- 
2.43.0


From b3193356dd0ad26e3ead5ceb1857ac0f2705807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 053/156] fix: CEvent never came to its timers and descriptors
 while a message handler kept posting messages

---
 src/CEvent.cpp | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 3afaa6c..48a17fa 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -349,34 +349,23 @@ namespace lce
                 {
                     if (iFd == m_iMsgFd[0]) // 自定义事件
                     {
-                        char szBuf[1];
+                        char szBuf[1024];
+                        queue<StMsgEvent> queMsgEvents; // what handlers post from now on waits for the next turn
 
-                        while (true)
+                        ::pthread_mutex_lock(&m_lock);
+
+                        while (read(m_iMsgFd[0], szBuf, sizeof(szBuf)) == (ssize_t)sizeof(szBuf))
+                            ;
+                        queMsgEvents.swap(m_queMsgEvents);
+
+                        ::pthread_mutex_unlock(&m_lock);
+
+                        while (!queMsgEvents.empty())
                         {
-                            StMsgEvent stMsgEvent;
-                            bool bHaveMsg = false;
-
-                            ::pthread_mutex_lock(&m_lock);
-
-                            int iFlag = read(m_iMsgFd[0], szBuf, 1);
-                            (void)iFlag; // there may be more messages than bytes
-
-                            if (!m_queMsgEvents.empty())
-                            {
-                                stMsgEvent = m_queMsgEvents.front();
-                                m_queMsgEvents.pop();
-                                bHaveMsg = true;
-                            }
-                            ::pthread_mutex_unlock(&m_lock);
-
-                            if (bHaveMsg)
-                            {
-                                stMsgEvent.onMessage(stMsgEvent.iMsgType, stMsgEvent.pClientData);
-                            }
-                            else
-                            {
-                                break;
-                            }
+                            StMsgEvent stMsgEvent = queMsgEvents.front();
+                            queMsgEvents.pop();
+
+                            stMsgEvent.onMessage(stMsgEvent.iMsgType, stMsgEvent.pClientData);
                         }
                     }
                     else
-- 
2.43.0


From 04d2664673fe60e8e176289ae494edeffe734cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 054/156] fix: Condition::wait with a time-out mixed up clocks
 and returned at once

---
 include/CLock.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/CLock.h b/include/CLock.h
index 4e13eb2..e49eead 100644
--- a/include/CLock.h
+++ b/include/CLock.h
@@ -2,6 +2,7 @@
 #define __NCE_CLOCK_H
 
 #include <pthread.h>
+#include <time.h>
 
 namespace lce
 {
@@ -110,7 +111,14 @@ namespace lce
 		Condition &operator=(const Condition &);
 
 	public:
-		Condition() { ::pthread_cond_init(&m_sect, NULL); }
+		Condition()
+		{
+			pthread_condattr_t stAttr;
+			::pthread_condattr_init(&stAttr);
+			::pthread_condattr_setclock(&stAttr, CLOCK_MONOTONIC);
+			::pthread_cond_init(&m_sect, &stAttr);
+			::pthread_condattr_destroy(&stAttr);
+		}
 		~Condition() { ::pthread_cond_destroy(&m_sect); }
 		bool signal() { return 0 == ::pthread_cond_signal(&m_sect); }
 		bool broadcast() { return 0 == ::pthread_cond_broadcast(&m_sect); }
@@ -121,6 +129,11 @@ namespace lce
 			clock_gettime(CLOCK_MONOTONIC, &tv);
 			tv.tv_sec += iWaitTime / 1000;
 			tv.tv_nsec += (iWaitTime % 1000) * 1000000;
+			if (tv.tv_nsec >= 1000000000)
+			{
+				tv.tv_sec++;
+				tv.tv_nsec -= 1000000000;
+			}
 
 			return 0 == ::pthread_cond_timedwait(&m_sect, &m.m_lock, &tv);
 		}
-- 
2.43.0


From c3bce72b6ed1de30e9fc4c5abdee22a86a5f408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 055/156] fix: CSingleton could hand out an instance that is
 not completely constructed

---
 include/CSingleton.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/CSingleton.h b/include/CSingleton.h
index 07df132..1b2eb4a 100644
--- a/include/CSingleton.h
+++ b/include/CSingleton.h
@@ -2,6 +2,7 @@
 #define _LCE_SINGLETON_H
 
 #include <pthread.h>
+#include <atomic>
 
 namespace lce
 {
@@ -31,12 +32,12 @@ namespace lce
 		CSingleton(const CSingleton &);
 
 	private:
-		static T *m_pInstance;
+		static std::atomic<T *> m_pInstance;
 		static pthread_mutex_t m_mutex;
 	};
 
 	template <typename T>
-	T *CSingleton<T>::m_pInstance = NULL;
+	std::atomic<T *> CSingleton<T>::m_pInstance(NULL);
 
 	template <typename T>
 	pthread_mutex_t CSingleton<T>::m_mutex = PTHREAD_MUTEX_INITIALIZER;
-- 
2.43.0


From 565c7c563377b19030b2b8e0f9f114c24115da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 056/156] fix: CThread cancelled or detached a foreign thread
 after its own had ended, and lost a stop during start

---
 include/CThread.h | 32 +++++++++++++++++++++++++++++---
 src/CThread.cpp   | 33 ++++++++++++++++++++++++++-------
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/include/CThread.h b/include/CThread.h
index 1c7d4f5..c24823f 100644
--- a/include/CThread.h
+++ b/include/CThread.h
@@ -8,6 +8,8 @@
 #include <signal.h>
 #include <sys/syscall.h>
 #include <unistd.h>
+#include <atomic>
+#include <memory>
 
 namespace lce
 {
@@ -36,10 +38,32 @@ namespace lce
         virtual int run() = 0;
 
     private:
+        // tells whether the thread has ended, also when the object is gone before it
+        struct StRunState
+        {
+            StRunState() : bRunning(true) { pthread_mutex_init(&stLock, 0); }
+            ~StRunState() { pthread_mutex_destroy(&stLock); }
+            pthread_mutex_t stLock;
+            std::atomic<bool> bRunning;
+        };
+
+        struct StThreadParam
+        {
+            CThread *pCThread;
+            std::shared_ptr<StRunState> pRunState;
+
+            ~StThreadParam()
+            {
+                pthread_mutex_lock(&pRunState->stLock);
+                pRunState->bRunning = false;
+                pthread_mutex_unlock(&pRunState->stLock);
+            }
+        };
+
         static void *procThread(void *pParam)
         {
-            CThread *pCThread = (CThread *)pParam;
-            pCThread->run();
+            std::unique_ptr<StThreadParam> pThreadParam((StThreadParam *)pParam);
+            pThreadParam->pCThread->run();
 
             return 0;
         }
@@ -50,7 +74,9 @@ namespace lce
     private:
         pid_t m_iPid;
         pthread_t m_iId;
-        int m_iStop;
+        bool m_bDetached;
+        std::shared_ptr<StRunState> m_pRunState;
+        std::atomic<int> m_iStop;
     };
 };
 #endif
diff --git a/src/CThread.cpp b/src/CThread.cpp
index 81950de..557ce0e 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -7,13 +7,14 @@ namespace lce
     {
         m_iId = 0;
         m_iPid = 0;
+        m_bDetached = false;
         m_iStop = 0;
     }
 
     CThread::~CThread()
     {
-        detach();
         stop();
+        detach();
     }
 
     int CThread::start()
@@ -25,20 +26,30 @@ namespace lce
         sigaddset(&signal_mask, SIGPIPE);
         pthread_sigmask(SIG_BLOCK, &signal_mask, NULL);
 
-        if (pthread_create(&m_iId, 0, CThread::procThread, this) != 0)
+        m_iStop = 0;
+        m_bDetached = false;
+        m_pRunState.reset(new StRunState);
+
+        StThreadParam *pThreadParam = new StThreadParam;
+        pThreadParam->pCThread = this;
+        pThreadParam->pRunState = m_pRunState;
+
+        if (pthread_create(&m_iId, 0, CThread::procThread, pThreadParam) != 0)
         {
+            m_iId = 0;
+            delete pThreadParam;
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,errno=%d,error=%s", __FILE__, __LINE__, errno, strerror(errno));
             return -1;
         }
-        m_iStop = 0;
 
         return 0;
     }
 
     int CThread::detach()
     {
-        if (m_iId > 0)
+        if (m_iId > 0 && !m_bDetached)
         {
+            m_bDetached = true;
             return pthread_detach(m_iId);
         }
 
@@ -47,9 +58,12 @@ namespace lce
 
     int CThread::join()
     {
-        if (m_iId > 0)
+        if (m_iId > 0 && !m_bDetached)
         {
-            return pthread_join(m_iId, NULL);
+            int iRet = pthread_join(m_iId, NULL);
+            if (iRet == 0)
+                m_iId = 0; // the id may belong to another thread from now on
+            return iRet;
         }
 
         return 0;
@@ -63,7 +77,12 @@ namespace lce
         m_iStop = 1;
         if (m_iId > 0)
         {
-            return pthread_cancel(m_iId);
+            int iRet = 0;
+            pthread_mutex_lock(&m_pRunState->stLock);
+            if (m_pRunState->bRunning)
+                iRet = pthread_cancel(m_iId);
+            pthread_mutex_unlock(&m_pRunState->stLock);
+            return iRet;
         }
 
         return 0;
-- 
2.43.0


From 20e70f78984200ae2a561c366034514a8e9d4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 057/156] fix: CTask queue accepted one task more than its
 configured size

---
 src/CTask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTask.cpp b/src/CTask.cpp
index bf5aa51..6b8e4b3 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -45,7 +45,7 @@ namespace lce
 
         pthread_mutex_lock(&m_lock);
 
-        if (m_queTaskQueue.size() > (size_t)m_iMaxSize) // 判定队列size 放在锁空间内
+        if (m_queTaskQueue.size() >= (size_t)m_iMaxSize) // 判定队列size 放在锁空间内
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,queue over size :%d", __FILE__, __LINE__, (int)m_queTaskQueue.size());
             pthread_mutex_unlock(&m_lock);
-- 
2.43.0


From 382a39313247ee7d7441af4f28fe3db946e665c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 058/156] fix: CTask stop and destruction cancelled running
 tasks, hung, or left workers on a destroyed pool

---
 include/CTask.h | 15 +++++++++++++++
 src/CTask.cpp   | 48 +++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/include/CTask.h b/include/CTask.h
index 1366d8b..f37b919 100644
--- a/include/CTask.h
+++ b/include/CTask.h
@@ -45,6 +45,7 @@ namespace lce
 
             int run()
             {
+                currentTask() = m_pTask;
                 while (!isStoped())
                 {
                     STaskInfo stTaskInfo;
@@ -52,6 +53,12 @@ namespace lce
 
                     pthread_mutex_lock(&m_pTask->m_lock);
 
+                    if (m_pTask->m_bStop) // checked under the lock, or the wake-up of stop could be missed
+                    {
+                        pthread_mutex_unlock(&m_pTask->m_lock);
+                        break;
+                    }
+
                     if (m_pTask->m_queTaskQueue.empty())
                     {
                         pthread_cond_wait(&m_pTask->m_cond, &m_pTask->m_lock); // 线程睡眠等待
@@ -79,6 +86,7 @@ namespace lce
         };
 
         friend class CTaskThread;
+        CTask();
         virtual ~CTask();
         int init(int iThreadNum, int iMaxSize);
         int run();
@@ -89,6 +97,12 @@ namespace lce
         char *getErrMsg() { return m_szErrMsg; }
 
     private:
+        static CTask *&currentTask() // the pool the calling thread works for
+        {
+            static thread_local CTask *pTask = NULL;
+            return pTask;
+        }
+
         int m_iThreadNum;
         pthread_mutex_t m_lock;
         pthread_cond_t m_cond;
@@ -96,6 +110,7 @@ namespace lce
         queue<STaskInfo> m_queTaskQueue;
         char m_szErrMsg[1024];
         int m_iMaxSize;
+        bool m_bStop;
     };
 
 };
diff --git a/src/CTask.cpp b/src/CTask.cpp
index 6b8e4b3..17ffa9e 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -2,12 +2,19 @@
 
 namespace lce
 {
+    CTask::CTask()
+    {
+        m_iThreadNum = 0;
+        m_iMaxSize = 0;
+        m_bStop = false;
+        pthread_mutex_init(&m_lock, 0);
+        pthread_cond_init(&m_cond, 0);
+    }
+
     int CTask::init(int iThreadNum, int iMaxSize)
     {
         m_iThreadNum = iThreadNum;
         m_iMaxSize = iMaxSize;
-        pthread_mutex_init(&m_lock, 0);
-        pthread_cond_init(&m_cond, 0);
 
         for (int i = 0; i < m_iThreadNum; i++)
         {
@@ -20,19 +27,44 @@ namespace lce
 
     int CTask::run()
     {
+        pthread_mutex_lock(&m_lock);
+        bool bStop = m_bStop;
+        pthread_mutex_unlock(&m_lock);
+
+        if (bStop)
+        {
+            stop(); // collects threads a stop from inside a task left behind
+            pthread_mutex_lock(&m_lock);
+            m_bStop = false;
+            pthread_mutex_unlock(&m_lock);
+        }
+
         for (int i = 0; i < m_iThreadNum; i++)
         {
-            m_vecTaskThreads[i]->start();
-            m_vecTaskThreads[i]->detach();
+            if (m_vecTaskThreads[i]->start() < 0)
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_vecTaskThreads[i]->getErrMsg());
+                stop();
+                return -1;
+            }
         }
         return 0;
     }
 
+    // Running tasks are completed, waiting ones stay in the queue.
     int CTask::stop()
     {
+        pthread_mutex_lock(&m_lock);
+        m_bStop = true;
+        pthread_cond_broadcast(&m_cond);
+        pthread_mutex_unlock(&m_lock);
+
+        if (currentTask() == this) // a task cannot wait for itself
+            return 0;
+
         for (int i = 0; i < m_iThreadNum; i++)
         {
-            m_vecTaskThreads[i]->stop();
+            m_vecTaskThreads[i]->join();
         }
         return 0;
     }
@@ -60,12 +92,14 @@ namespace lce
 
     CTask::~CTask()
     {
-        pthread_mutex_destroy(&m_lock);
-        pthread_cond_destroy(&m_cond);
+        stop();
 
         for (vector<CTaskThread *>::iterator it1 = m_vecTaskThreads.begin(); it1 != m_vecTaskThreads.end(); ++it1)
         {
             delete (*it1);
         }
+
+        pthread_mutex_destroy(&m_lock);
+        pthread_cond_destroy(&m_cond);
     }
 };
-- 
2.43.0


From 4bcee69e36147655b6bf56bbed4c8f293ff9c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 059/156] fix: GetGMTDate shared one static time structure
 between threads

---
 src/Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 09b1b30..0943c53 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -201,7 +201,8 @@ namespace lce
     std::string GetGMTDate(const time_t &cur)
     {
         char buf[256];
-        struct tm *gt = gmtime(&cur);
+        struct tm stTm;
+        struct tm *gt = gmtime_r(&cur, &stTm);
         snprintf(buf, sizeof(buf), "%s, %02d %s %04d %02d:%02d:%02d GMT",
                  days[gt->tm_wday],
                  gt->tm_mday,
-- 
2.43.0


From 505ea28097c79c31b7781851511b6c0f0da9997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 060/156] fix: CAnyWorkerPool answers carried neither start
 mark nor length, no client could frame them

---
 include/CAnyValue.h      | 3 ++-
 include/CAnyWorkerPool.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 88d3c14..f2f4db9 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -2021,7 +2021,8 @@ namespace lce
     public:
         CAnyValuePackage()
         {
-            m_sEncodeData.assign(sizeof(PKG_HEAD), 0);
+            PKG_HEAD stHead = PKG_HEAD();
+            m_sEncodeData.assign((const char *)&stHead, sizeof(stHead));
         }
 
         PKG_HEAD &head()
diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index afcc651..6618b56 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -125,6 +125,7 @@ namespace lce
             m_vecWorkers[iIndex]->onRequest(*poRequest, *poResponse);
             poResponse->getWriter().encode();
             poResponse->getWriter().setEtx();
+            poResponse->getWriter().head().setLen(poResponse->getWriter().size());
             if (CCommMgr::getInstance().sendMessage(iTaskType, this, poResponse) < 0)
             {
                 if (m_pErrHandler != NULL)
-- 
2.43.0


From d9e04b9e7a4eaae00a3befe778e7905b3c4fb1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 061/156] fix: worker pools called an uninitialised error
 handler

---
 include/CAnyWorkerPool.h  | 1 +
 include/CHttpWorkerPool.h | 1 +
 include/CRawWorkerPool.h  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index 6618b56..7f98252 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -50,6 +50,7 @@ namespace lce
     template <class T>
     CAnyWorkerPool<T>::CAnyWorkerPool()
     {
+        m_pErrHandler = NULL;
     }
 
     template <class T>
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index b09626e..63a73c2 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -50,6 +50,7 @@ namespace lce
     template <class T>
     CHttpWorkerPool<T>::CHttpWorkerPool()
     {
+        m_pErrHandler = NULL;
     }
 
     template <class T>
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 7792766..fcb8814 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -50,6 +50,7 @@ namespace lce
     template <class T>
     CRawWorkerPool<T>::CRawWorkerPool()
     {
+        m_pErrHandler = NULL;
     }
 
     template <class T>
-- 
2.43.0


From 2adc493585dfbd367b6cbe09afe8348aa637f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 062/156] fix: worker pools leaked refused requests and
 undeliverable answers

---
 include/CAnyWorkerPool.h  | 5 +++++
 include/CHttpWorkerPool.h | 5 +++++
 include/CRawWorkerPool.h  | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index 7f98252..6834d68 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -97,6 +97,8 @@ namespace lce
 
             if (dispatch(0, poRequest) < 0)
             {
+                delete poRequest;
+                poRequest = NULL;
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
             }
@@ -131,6 +133,9 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler(CCommMgr::getInstance().getErrMsg());
+
+                delete poResponse;
+                poResponse = NULL;
             }
         }
         catch (const exception &e)
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index 63a73c2..35dcfb9 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -97,6 +97,8 @@ namespace lce
 
             if (dispatch(0, poRequest) < 0)
             {
+                delete poRequest;
+                poRequest = NULL;
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
             }
@@ -128,6 +130,9 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler(CCommMgr::getInstance().getErrMsg());
+
+                delete poResponse;
+                poResponse = NULL;
             }
         }
         catch (const exception &e)
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index fcb8814..031c757 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -93,6 +93,8 @@ namespace lce
         pstRequest->getReader().assign(pszData, iSize);
         if (dispatch(0, pstRequest) < 0)
         {
+            delete pstRequest;
+            pstRequest = NULL;
             if (m_pErrHandler != NULL)
                 m_pErrHandler("task queue full");
         }
@@ -111,6 +113,9 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler(CCommMgr::getInstance().getErrMsg());
+
+                delete pstResponse;
+                pstResponse = NULL;
             }
         }
         catch (const exception &e)
-- 
2.43.0


From 469043a45f4a707794c1b0872b81fcc483085be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 063/156] fix: worker pools deleted their workers while threads
 still used them

---
 include/CAnyWorkerPool.h  | 1 +
 include/CHttpWorkerPool.h | 1 +
 include/CRawWorkerPool.h  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index 6834d68..a3dbfd5 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -42,6 +42,7 @@ namespace lce
     template <class T>
     CAnyWorkerPool<T>::~CAnyWorkerPool()
     {
+        stop();
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index 35dcfb9..15ea2b7 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -42,6 +42,7 @@ namespace lce
     template <class T>
     CHttpWorkerPool<T>::~CHttpWorkerPool()
     {
+        stop();
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 031c757..c37fc9d 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -42,6 +42,7 @@ namespace lce
     template <class T>
     CRawWorkerPool<T>::~CRawWorkerPool()
     {
+        stop();
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
-- 
2.43.0


From 276538062c048ba92359e8099d6b024917ee4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 064/156] fix: CCircleQueue handed elements to the other thread
 without memory ordering

---
 include/CCircleQueue.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/CCircleQueue.h b/include/CCircleQueue.h
index 5d07a9c..8990d86 100644
--- a/include/CCircleQueue.h
+++ b/include/CCircleQueue.h
@@ -1,6 +1,9 @@
 #ifndef __CIRCLE_QUEUE_H__
 #define __CIRCLE_QUEUE_H__
 
+#include <stdint.h>
+#include <atomic>
+
 namespace lce
 {
 
@@ -77,8 +80,8 @@ namespace lce
 		}
 
 	private:
-		volatile uint32_t m_dwFront;
-		volatile uint32_t m_dwRear;
+		std::atomic<uint32_t> m_dwFront;
+		std::atomic<uint32_t> m_dwRear;
 		SNode *pData;
 		volatile uint32_t m_dwSize;
 	};
-- 
2.43.0


From 74e2d0045a29c8d85d84d8501e876de6ebb2eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 065/156] fix: CCircleQueue divided by zero before init and
 leaked when initialised again

---
 include/CCircleQueue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/CCircleQueue.h b/include/CCircleQueue.h
index 8990d86..5ca3584 100644
--- a/include/CCircleQueue.h
+++ b/include/CCircleQueue.h
@@ -24,7 +24,7 @@ namespace lce
 			pData = NULL;
 			m_dwFront = 0;
 			m_dwRear = 0;
-			m_dwSize = 0;
+			m_dwSize = 1; // full until init
 		}
 
 		~CCircleQueue()
@@ -38,6 +38,9 @@ namespace lce
 			if (dwSize < 1)
 				dwSize = 1000;
 
+			if (pData != NULL)
+				delete[] pData;
+
 			pData = new SNode[dwSize + 1];
 			m_dwFront = 0;
 			m_dwRear = 0;
-- 
2.43.0


From 79419f30948515a21daeaa6d21ddda16e47c6454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 066/156] fix: CNetWorker announced accepted connections with
 the wrong descriptor

---
 src/CNetWorker.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 730d9b5..ccc16ed 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -290,18 +290,18 @@ namespace lce
 
 				StSession stSession;
 				stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
-				stSession.iFd = iFd;
+				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
 
 				onConnect(stSession, true, pstClientInfo);
 
-				if (isClose(pstClientInfo->iFd))
+				if (isClose(stSession.iFd))
 					continue;
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 				{
-					close(iFd);
+					close(stSession.iFd);
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
 					onError(stSession, m_szErrMsg, ERR_OP_EVENT);
 				}
-- 
2.43.0


From b2a333ad2a5cac1656ef1cbb53643597f9bcfcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 067/156] fix: CNetWorker connect() overran its table and never
 read from a connection made at once

---
 src/CNetWorker.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index ccc16ed..04a88cb 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -137,6 +137,14 @@ namespace lce
 				return -1;
 			}
 
+			if (pstClientInfo->iFd >= (int)m_vecClients.size())
+			{
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,too many descriptors", __FILE__, __LINE__);
+				lce::Close(pstClientInfo->iFd);
+				delete pstClientInfo;
+				return -1;
+			}
+
 			lce::SetReUseAddr(pstClientInfo->iFd);
 			lce::SetNoneBlock(pstClientInfo->iFd);
 
@@ -157,11 +165,19 @@ namespace lce
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 				onConnect(stSession, true, pData);
 
-				if (isClose(pstClientInfo->iFd))
+				if (isClose(stSession.iFd))
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
 				}
+
+				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
+				{
+					close(stSession.iFd);
+					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+					onError(stSession, m_szErrMsg, ERR_OP_EVENT);
+					return -1;
+				}
 				return pstClientInfo->iFd;
 			}
 			else
-- 
2.43.0


From 8439599d81f12eed9fd60dfad72e6bc16e8efa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 068/156] fix: CNetWorker took sessions of closed connections
 for the next ones on their descriptors

---
 include/CNetWorker.h |  8 +++++++-
 src/CNetWorker.cpp   | 34 ++++++++++++++++++++++++----------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/include/CNetWorker.h b/include/CNetWorker.h
index b22e51f..ad6ba84 100755
--- a/include/CNetWorker.h
+++ b/include/CNetWorker.h
@@ -32,6 +32,7 @@ namespace lce
 		CNetWorker()
 		{
 			m_iEventFd = 0;
+			m_ddwConnId = 0;
 		}
 
 		virtual ~CNetWorker()
@@ -104,7 +105,11 @@ namespace lce
 
 		inline bool isClose(int iFd)
 		{
-			return (m_vecClients[iFd] == NULL);
+			return iFd < 0 || iFd >= (int)m_vecClients.size() || (m_vecClients[iFd] == NULL);
+		}
+		inline bool isClose(const StSession &stSession)
+		{
+			return isClose(stSession.iFd) || (stSession.ddwConnId != 0 && stSession.ddwConnId != m_vecClients[stSession.iFd]->ddwConnId);
 		}
 		int close(int iFd);
 		int write(int iFd);
@@ -123,6 +128,7 @@ namespace lce
 		map<uint32_t, StServerInfo *> m_mapServers;
 		CCircleQueue<StClientInfo *> m_queConn;
 		int m_iEventFd;
+		uint64_t m_ddwConnId;
 	};
 };
 
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 04a88cb..3142f73 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -128,6 +128,7 @@ namespace lce
 			pstClientInfo->iFd = lce::CreateTcpSock();
 			pstClientInfo->pstServerInfo = pstServerInfo;
 			pstClientInfo->ddwBeginTime = lce::GetTickCount();
+			pstClientInfo->ddwConnId = ++m_ddwConnId;
 
 			if (pstClientInfo->iFd < 0)
 			{
@@ -161,11 +162,12 @@ namespace lce
 				stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
 				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstServerInfo->iSrvId;
+				stSession.ddwConnId = pstClientInfo->ddwConnId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 				onConnect(stSession, true, pData);
 
-				if (isClose(stSession.iFd))
+				if (isClose(stSession))
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
@@ -236,13 +238,14 @@ namespace lce
 		stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstServerInfo->iSrvId;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
 
 		if (error == 0)
 		{
 			onConnect(stSession, true, pData);
 
-			if (!isClose(iFd))
+			if (!isClose(stSession))
 			{
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -256,7 +259,7 @@ namespace lce
 		else
 		{
 			onConnect(stSession, false, pData);
-			close(iFd);
+			close(stSession);
 		}
 	}
 
@@ -303,16 +306,18 @@ namespace lce
 			if (pstClientInfo != NULL)
 			{
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
+				pstClientInfo->ddwConnId = ++m_ddwConnId;
 
 				StSession stSession;
 				stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
 				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
+				stSession.ddwConnId = pstClientInfo->ddwConnId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
 
 				onConnect(stSession, true, pstClientInfo);
 
-				if (isClose(stSession.iFd))
+				if (isClose(stSession))
 					continue;
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -328,12 +333,18 @@ namespace lce
 	void CNetWorker::onTcpRead(int iFd, void *pData)
 	{
 
+		if (isClose(iFd))
+		{
+			return;
+		}
+
 		StClientInfo *pstClientInfo = m_vecClients[iFd];
 
 		StSession stSession;
 		stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
 
 		if (pstClientInfo->pSocketRecvBuf == NULL)
@@ -379,8 +390,8 @@ namespace lce
 			while ((iWholePkgFlag = pstClientInfo->pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
 			{
 				onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
-				if (isClose(iFd))
-					break;
+				if (isClose(stSession))
+					return;
 				pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
 			}
 			if (-2 == iWholePkgFlag) // �Ƿ����ݰ�
@@ -393,14 +404,14 @@ namespace lce
 		else if (iSize == 0)
 		{
 			onClose(stSession);
-			close(iFd);
+			close(stSession);
 		}
 		else
 		{
 			if (errno == 104) // Connection reset by peer
 			{
 				onClose(stSession);
-				close(iFd);
+				close(stSession);
 			}
 			else if (errno == EAGAIN || errno == EINTR) // ��������������IO��������������ر�����
 			{
@@ -418,12 +429,14 @@ namespace lce
 
 	int CNetWorker::close(const StSession &stSession)
 	{
+		if (isClose(stSession))
+			return 0;
 		return close(stSession.iFd);
 	}
 
 	int CNetWorker::close(int iFd)
 	{
-		if (m_vecClients[iFd] != NULL)
+		if (!isClose(iFd))
 		{
 			delete m_vecClients[iFd];
 			m_vecClients[iFd] = NULL;
@@ -436,7 +449,7 @@ namespace lce
 	int CNetWorker::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
 	{
 
-		if (isClose(stSession.iFd))
+		if (isClose(stSession))
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
 			return -1;
@@ -612,6 +625,7 @@ namespace lce
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstServerInfo->iSrvId;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		int iSendBufSize = pstClientInfo->pSocketSendBuf->getSize();
 
-- 
2.43.0


From 526a0de5728f11d884abc0d7c92a842250e61dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 069/156] fix: CNetWorker::write dropped a pending close
 request, or set one for data it refused

---
 src/CNetWorker.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 3142f73..e3e172b 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -459,7 +459,7 @@ namespace lce
 
 		StServerInfo *pstServerInfo = pstClientInfo->pstServerInfo;
 
-		pstClientInfo->bNeedClose = bClose;
+		bClose = bClose || pstClientInfo->bNeedClose; // an earlier write asked for it
 		int iSendBufSize = 0;
 		int iSendSize = 0;
 
@@ -480,6 +480,7 @@ namespace lce
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
 						return -1;
 					}
+					pstClientInfo->bNeedClose = bClose;
 					if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 					{
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
@@ -511,6 +512,7 @@ namespace lce
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
 						return -1;
 					}
+					pstClientInfo->bNeedClose = bClose;
 					if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 					{
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
@@ -550,6 +552,7 @@ namespace lce
 					return -1;
 				}
 
+				pstClientInfo->bNeedClose = bClose;
 				if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
@@ -569,6 +572,7 @@ namespace lce
 							return -1;
 						}
 
+						pstClientInfo->bNeedClose = bClose;
 						if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 						{
 							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
@@ -597,6 +601,7 @@ namespace lce
 							return -1;
 						}
 
+						pstClientInfo->bNeedClose = bClose;
 						if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 						{
 							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
-- 
2.43.0


From 7aadc93693ba50f02a1a8b76462806a2c9eb2c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 070/156] fix: CNetWorker::write cut data out of the stream
 when the rest did not fit the send buffer

---
 src/CNetWorker.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index e3e172b..249c768 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -477,6 +477,7 @@ namespace lce
 					}
 					if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
 					{
+						::shutdown(stSession.iFd, SHUT_RDWR); // a part of the data is sent already, end the stream here
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
 						return -1;
 					}
@@ -568,6 +569,7 @@ namespace lce
 					{
 						if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
 						{
+							::shutdown(stSession.iFd, SHUT_RDWR); // a part of the data is sent already, end the stream here
 							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
 							return -1;
 						}
-- 
2.43.0


From 42909b490c4ad0cb805a7f1893a9533d337fb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 071/156] fix: CNetWorker::write took an empty write for an
 error

---
 src/CNetWorker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 249c768..d23acc2 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -467,7 +467,7 @@ namespace lce
 		{
 			iSendSize = lce::Send(stSession.iFd, pszData, iSize);
 
-			if (iSendSize > 0)
+			if (iSendSize >= 0)
 			{
 				if (iSendSize < iSize)
 				{
@@ -563,7 +563,7 @@ namespace lce
 			else
 			{
 				int iSendSize = lce::Send(stSession.iFd, pszData, iSize);
-				if (iSendSize > 0)
+				if (iSendSize >= 0)
 				{
 					if (iSendSize < iSize)
 					{
-- 
2.43.0


From e64b4488ca69f837ce853bb3bb6ccfd970e1bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 072/156] fix: the network workers deleted package filters
 given to them and leaked their own

---
 include/CNetWorkerMgr.h | 4 ++++
 src/CNetWorker.cpp      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index 0ac2043..78359da 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -210,6 +210,10 @@ namespace lce
 			return -1;
 		}
 
+		if (pstServerInfo->iPkgType != PKG_EXT)
+			delete pstServerInfo->pPackageFilter;
+
+		pstServerInfo->iPkgType = PKG_EXT; // the filter is not ours to delete
 		pstServerInfo->pPackageFilter = pPkgFilter;
 		return 0;
 	}
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index d23acc2..9995a2a 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -103,6 +103,10 @@ namespace lce
 			return -1;
 		}
 
+		if (it->second->iPkgType != PKG_EXT)
+			delete it->second->pPackageFilter;
+
+		it->second->iPkgType = PKG_EXT; // the filter is not ours to delete
 		it->second->pPackageFilter = pPkgFilter;
 
 		return 0;
-- 
2.43.0


From 50dd933b9813887a66cc3f7cfb7f242ccd15a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 073/156] fix: CNetWorkerMgr used uninitialised members and
 forgot an error handler set before init

---
 include/CNetWorkerMgr.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index 78359da..9f454f7 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -25,6 +25,13 @@ namespace lce
 	class CNetWorkerMgr
 	{
 	public:
+		CNetWorkerMgr()
+		{
+			m_pErrHandler = NULL;
+			m_szErrMsg[0] = 0;
+			m_dwMaxClient = 0;
+			m_dwClientNum = 0;
+		}
 		~CNetWorkerMgr();
 
 	public:
@@ -78,7 +85,6 @@ namespace lce
 		}
 
 		m_dwMaxClient = dwMaxClient;
-		m_pErrHandler = NULL;
 
 		for (int i = 0; i < dwThreadNum; i++)
 		{
-- 
2.43.0


From efbb022bceefefa4cceaf4fc7df41e7918452be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 074/156] fix: CNetWorkerMgr cancelled its workers inside of
 handlers, and never freed them and their descriptors

---
 include/CNetWorker.h    | 11 +++++++++++
 include/CNetWorkerMgr.h | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/include/CNetWorker.h b/include/CNetWorker.h
index ad6ba84..c8db09c 100755
--- a/include/CNetWorker.h
+++ b/include/CNetWorker.h
@@ -44,10 +44,18 @@ namespace lce
 			{
 				if (m_vecClients[i] != NULL)
 				{
+					lce::Close(m_vecClients[i]->iFd);
 					delete m_vecClients[i];
 				}
 			}
 
+			StClientInfo *pstClientInfo = NULL;
+			while (m_queConn.deque(pstClientInfo))
+			{
+				lce::Close(pstClientInfo->iFd);
+				delete pstClientInfo;
+			}
+
 			map<uint32_t, StServerInfo *>::iterator it = m_mapServers.begin();
 			for (; it != m_mapServers.end(); ++it)
 			{
@@ -98,6 +106,9 @@ namespace lce
 
 		int sendMessage(int iMsgType, void *pData = NULL);
 
+		// ends run() after the handler that is running, the thread must not be cancelled inside of it
+		int stop() { return m_oEvent.addMessage(0, std::bind(&CEvent::stop, &m_oEvent), NULL); }
+
 		const char *getErrMsg() { return m_szErrMsg; }
 
 	private:
diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index 9f454f7..44c8fa4 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -41,9 +41,25 @@ namespace lce
 		{
 			for (size_t i = 0; i < m_vecWorkers.size(); ++i)
 			{
-				m_vecWorkers[i]->start();
+				if (m_vecWorkers[i]->start() != 0)
+				{
+					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,start worker error", __FILE__, __LINE__);
+					while (i > 0)
+					{
+						m_vecWorkers[--i]->stop();
+						m_vecWorkers[i]->join();
+					}
+					return -1;
+				}
+			}
+
+			int iRet = m_oEvent.run();
+
+			for (size_t i = 0; i < m_vecWorkers.size(); ++i)
+			{
+				m_vecWorkers[i]->join();
 			}
-			return m_oEvent.run();
+			return iRet;
 		}
 
 		int stop()
@@ -284,6 +300,18 @@ namespace lce
 	template <class T>
 	CNetWorkerMgr<T>::~CNetWorkerMgr()
 	{
+		for (size_t i = 0; i < m_vecWorkers.size(); ++i)
+		{
+			m_vecWorkers[i]->stop();
+			m_vecWorkers[i]->join();
+			delete m_vecWorkers[i];
+		}
+
+		for (size_t i = 0; i < m_vecServers.size(); ++i)
+		{
+			lce::Close(m_vecServers[i]->iFd);
+			delete m_vecServers[i];
+		}
 	}
 
 };
-- 
2.43.0


From e42c9ccab9ce1116e7bdc2f59a0dce3c23b6172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 075/156] fix: CBlockQueue::pop gave up its lock after waiting
 and went on without it

---
 include/CBlockQueue.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 89199ad..1c4e868 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -155,7 +155,6 @@ namespace lce
                 if (m_dwSize <= 0)
                 {
                     pthread_cond_wait(m_cond, m_mutex);
-                    pthread_mutex_unlock(m_mutex);
                     continue;
                 }
                 else
-- 
2.43.0


From 05d6d34ba20286d3a6e35b03997515266c236a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 076/156] fix: CBlockQueue::front returned the element popped
 last

---
 include/CBlockQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 1c4e868..bc57310 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -88,7 +88,7 @@ namespace lce
                 pthread_mutex_unlock(m_mutex);
                 return false;
             }
-            value = m_pData[m_dwFront];
+            value = m_pData[(m_dwFront + 1) % m_dwMaxSize];
             pthread_mutex_unlock(m_mutex);
             return true;
         }
-- 
2.43.0


From 7890655ccdbd5a7260df03e42e1d1abbfbfdacff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 077/156] fix: CBlockQueue::pop with a time-out returned early

---
 include/CBlockQueue.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index bc57310..6a8be2d 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -177,14 +177,18 @@ namespace lce
             struct timeval now = {0, 0};
             gettimeofday(&now, 0);
             pthread_mutex_lock(m_mutex);
-            if (m_dwSize <= 0)
+            t.tv_sec = now.tv_sec + timeout / 1000;
+            t.tv_nsec = now.tv_usec * 1000 + (timeout % 1000) * 1000000L;
+            if (t.tv_nsec >= 1000000000L)
+            {
+                t.tv_sec++;
+                t.tv_nsec -= 1000000000L;
+            }
+            while (m_dwSize <= 0)
             {
-                t.tv_sec = now.tv_sec + timeout / 1000;
-                t.tv_nsec = (timeout % 1000) * 1000;
                 if (0 != pthread_cond_timedwait(m_cond, m_mutex, &t))
                 {
-                    pthread_mutex_unlock(m_mutex);
-                    return false;
+                    break;
                 }
             }
 
-- 
2.43.0


From 1c1738bd5dfa4cff793340976f4ac864eeb05dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 078/156] fix: CBlockQueue::clear did not wake blocked pushers

---
 include/CBlockQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 6a8be2d..2f3d9c3 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -38,6 +38,7 @@ namespace lce
             m_dwFront = -1;
             m_dwBack = -1;
             pthread_mutex_unlock(m_mutex);
+            pthread_cond_broadcast(m_cond);
         }
 
         ~CBlockQueue()
-- 
2.43.0


From a86644d2b0aced04f044676d6dd9e2fe6c634209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 079/156] fix: CBufferQueue accepted lengths that overflow its
 arithmetic

---
 include/CBufferQueue.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/CBufferQueue.h b/include/CBufferQueue.h
index 096e563..5450b9d 100644
--- a/include/CBufferQueue.h
+++ b/include/CBufferQueue.h
@@ -162,6 +162,8 @@ namespace lce
         {
             if (len == 0)
                 return;
+            if (len > _header->iBufSize)
+                throw runtime_error("bufferqueue::push full");
             unsigned long iBegin = _header->iBegin;
             if (_header->iEnd == iBegin)
             {
@@ -348,9 +350,11 @@ namespace lce
 
         void push(const char *buffer1, unsigned len1, const char *buffer2, unsigned len2) throw(runtime_error)
         {
-            unsigned long len = len1 + len2;
+            unsigned long len = (unsigned long)len1 + len2;
             if (len == 0)
                 return;
+            if (len > _header->iBufSize)
+                throw runtime_error("bufferqueue::push full");
             unsigned long iBegin = _header->iBegin;
             if (_header->iEnd == iBegin)
             {
@@ -422,6 +426,8 @@ namespace lce
             unsigned long iBegin = _header->iBegin;
             if (len == 0)
                 return false;
+            if (len > _header->iBufSize)
+                return true;
 
             if (_header->iEnd == iBegin)
             {
-- 
2.43.0


From 1db7a1e28fd7d0fa22a0333de732037b43e89f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 080/156] fix: CBufferQueue raced on its positions and count
 between writer and reader

---
 include/CBufferQueue.h | 65 ++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 38 deletions(-)

diff --git a/include/CBufferQueue.h b/include/CBufferQueue.h
index 5450b9d..bdb3494 100644
--- a/include/CBufferQueue.h
+++ b/include/CBufferQueue.h
@@ -9,6 +9,7 @@
 #include <assert.h>
 #include <iostream>
 #include <string.h>
+#include <atomic>
 
 using namespace std;
 
@@ -67,10 +68,8 @@ namespace lce
         bool pop(char *buffer, unsigned long &buffersize) throw(runtime_error)
         {
             unsigned long iEnd = _header->iEnd;
-            unsigned tmp_num;
             if (_header->iBegin == iEnd)
             {
-                _header->iNum = 0;
                 return false;
             }
             else if (_header->iBegin < iEnd)
@@ -80,18 +79,16 @@ namespace lce
                 assert(_header->iBegin + ulMarkLen + len <= iEnd);
                 if (len > buffersize)
                 {
+                    if (_header->iNum > 0)
+                        _header->iNum--;
                     _header->iBegin += len + ulMarkLen;
-                    tmp_num = _header->iNum;
-                    if (tmp_num > 0)
-                        _header->iNum = tmp_num - 1;
                     throw runtime_error("bufferqueue::pop data is too long to store in the buffer");
                 }
                 buffersize = len;
                 memcpy(buffer, _data + _header->iBegin + ulMarkLen, len);
+                if (_header->iNum > 0)
+                    _header->iNum--;
                 _header->iBegin += len + ulMarkLen;
-                tmp_num = _header->iNum;
-                if (tmp_num > 0)
-                    _header->iNum = tmp_num - 1;
             }
             else
             {
@@ -131,10 +128,9 @@ namespace lce
 
                 if (len > buffersize)
                 {
+                    if (_header->iNum > 0)
+                        _header->iNum--;
                     _header->iBegin = new_begin;
-                    tmp_num = _header->iNum;
-                    if (tmp_num > 0)
-                        _header->iNum = tmp_num - 1;
                     throw runtime_error("bufferqueue::pop data is too long to store in the buffer");
                 }
                 buffersize = len;
@@ -149,10 +145,9 @@ namespace lce
                     memcpy(buffer + (_data + _header->iBufSize - data_from), _data, data_to - _data);
                     assert(_header->iBufSize - (data_from - data_to) == len);
                 }
+                if (_header->iNum > 0)
+                    _header->iNum--;
                 _header->iBegin = new_begin;
-                tmp_num = _header->iNum;
-                if (tmp_num > 0)
-                    _header->iNum = tmp_num - 1;
             }
 
             return true;
@@ -191,25 +186,25 @@ namespace lce
                 memcpy(_data + _header->iEnd, tmp, _header->iBufSize - _header->iEnd);
                 memcpy(_data, tmp + _header->iBufSize - _header->iEnd, _header->iEnd + ulMarkLen - _header->iBufSize);
                 memcpy(_data + _header->iEnd + ulMarkLen - _header->iBufSize, buffer, len);
+                _header->iNum++;
                 _header->iEnd = len + _header->iEnd + ulMarkLen - _header->iBufSize;
                 assert(_header->iEnd + ulReserveLen <= iBegin);
-                _header->iNum++;
             }
             else if (_header->iEnd + ulMarkLen + len > _header->iBufSize)
             {
                 setLen(_data + _header->iEnd, len);
                 memcpy(_data + _header->iEnd + ulMarkLen, buffer, _header->iBufSize - _header->iEnd - ulMarkLen);
                 memcpy(_data, buffer + _header->iBufSize - _header->iEnd - ulMarkLen, len - (_header->iBufSize - _header->iEnd - ulMarkLen));
+                _header->iNum++;
                 _header->iEnd = len - (_header->iBufSize - _header->iEnd - ulMarkLen);
                 assert(_header->iEnd + ulReserveLen <= iBegin);
-                _header->iNum++;
             }
             else
             {
                 setLen(_data + _header->iEnd, len);
                 memcpy(_data + _header->iEnd + ulMarkLen, buffer, len);
-                _header->iEnd = (_header->iEnd + ulMarkLen + len) % _header->iBufSize;
                 _header->iNum++;
+                _header->iEnd = (_header->iEnd + ulMarkLen + len) % _header->iBufSize;
             }
         }
 
@@ -217,10 +212,8 @@ namespace lce
         {
             unsigned long buffersize = buffersize1 + buffersize2;
             unsigned long iEnd = _header->iEnd;
-            unsigned long tmp_num;
             if (_header->iBegin == iEnd)
             {
-                _header->iNum = 0;
                 return false;
             }
             else if (_header->iBegin < iEnd)
@@ -230,10 +223,9 @@ namespace lce
                 assert(_header->iBegin + ulMarkLen + len <= iEnd);
                 if (len > buffersize)
                 {
+                    if (_header->iNum > 0)
+                        _header->iNum--;
                     _header->iBegin += len + ulMarkLen;
-                    tmp_num = _header->iNum;
-                    if (tmp_num > 0)
-                        _header->iNum = tmp_num - 1;
                     throw runtime_error("bufferqueue::pop data is too long to store in the buffer");
                 }
                 if (buffersize1 > len)
@@ -248,10 +240,9 @@ namespace lce
                     memcpy(buffer1, _data + _header->iBegin + ulMarkLen, buffersize1);
                     memcpy(buffer2, _data + _header->iBegin + ulMarkLen + buffersize1, buffersize2);
                 }
+                if (_header->iNum > 0)
+                    _header->iNum--;
                 _header->iBegin += len + ulMarkLen;
-                tmp_num = _header->iNum;
-                if (tmp_num > 0)
-                    _header->iNum = tmp_num - 1;
             }
             else
             {
@@ -291,10 +282,9 @@ namespace lce
 
                 if (len > buffersize)
                 {
+                    if (_header->iNum > 0)
+                        _header->iNum--;
                     _header->iBegin = new_begin;
-                    tmp_num = _header->iNum;
-                    if (tmp_num > 0)
-                        _header->iNum = tmp_num - 1;
                     throw runtime_error("bufferqueue::pop data is too long to store in the buffer");
                 }
                 buffersize = len;
@@ -339,10 +329,9 @@ namespace lce
                         memcpy(buffer2 + (_data + _header->iBufSize - data_from - buffersize1), _data, len - (_data - data_from + _header->iBufSize));
                     }
                 }
+                if (_header->iNum > 0)
+                    _header->iNum--;
                 _header->iBegin = new_begin;
-                tmp_num = _header->iNum;
-                if (tmp_num > 0)
-                    _header->iNum = tmp_num - 1;
             }
 
             return true;
@@ -383,9 +372,9 @@ namespace lce
                 memcpy(_data, tmp + _header->iBufSize - _header->iEnd, _header->iEnd + ulMarkLen - _header->iBufSize);
                 memcpy(_data + _header->iEnd + ulMarkLen - _header->iBufSize, buffer1, len1);
                 memcpy(_data + _header->iEnd + ulMarkLen - _header->iBufSize + len1, buffer2, len2);
+                _header->iNum++;
                 _header->iEnd = len + _header->iEnd + ulMarkLen - _header->iBufSize;
                 assert(_header->iEnd + ulReserveLen <= iBegin);
-                _header->iNum++;
             }
             else if (_header->iEnd + ulMarkLen + len > _header->iBufSize)
             {
@@ -402,17 +391,17 @@ namespace lce
                     memcpy(_data + _header->iEnd + ulMarkLen + len1, buffer2, _header->iBufSize - _header->iEnd - ulMarkLen - len1);
                     memcpy(_data, buffer2 + _header->iBufSize - _header->iEnd - ulMarkLen - len1, len2 - (_header->iBufSize - _header->iEnd - ulMarkLen - len1));
                 }
+                _header->iNum++;
                 _header->iEnd = len - (_header->iBufSize - _header->iEnd - ulMarkLen);
                 assert(_header->iEnd + ulReserveLen <= iBegin);
-                _header->iNum++;
             }
             else
             {
                 setLen(_data + _header->iEnd, len);
                 memcpy(_data + _header->iEnd + ulMarkLen, buffer1, len1);
                 memcpy(_data + _header->iEnd + ulMarkLen + len1, buffer2, len2);
-                _header->iEnd = (_header->iEnd + ulMarkLen + len) % _header->iBufSize;
                 _header->iNum++;
+                _header->iEnd = (_header->iEnd + ulMarkLen + len) % _header->iBufSize;
             }
         }
         bool empty() const
@@ -447,7 +436,7 @@ namespace lce
         {
             if (empty())
             {
-                _header->iNum = 0;
+                return 0;
             }
             return _header->iNum;
         }
@@ -471,9 +460,9 @@ namespace lce
         {
             unsigned long iBufSize;
             unsigned long iulReserveLen; // must be 8
-            unsigned long iBegin;
-            unsigned long iEnd;
-            unsigned long iNum;
+            std::atomic<unsigned long> iBegin; // moved by the reader
+            std::atomic<unsigned long> iEnd;   // moved by the writer
+            std::atomic<unsigned long> iNum;
         };
 
         Header *_header;
-- 
2.43.0


From 9a0eef3d9cf91ed60551ce1ed0eab3c1b4e16a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 081/156] fix: CShm leaked attachments, kept an invalid pointer
 after a failed one and detached those of its copies

---
 include/CShm.h | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/CShm.h b/include/CShm.h
index 9b55613..1fb6fc6 100644
--- a/include/CShm.h
+++ b/include/CShm.h
@@ -4,6 +4,10 @@
 #include <sys/types.h>
 #include <sys/shm.h>
 #include <sys/ipc.h>
+#include <errno.h>
+#include <stdio.h>
+#include <string.h>
+#include <memory>
 
 namespace lce
 {
@@ -15,6 +19,7 @@ namespace lce
 		{
 			memset(m_szErrMsg, 0, sizeof(m_szErrMsg));
 			m_bCreate = false;
+			m_bReadOnly = false;
 			m_iShmKey = 0;
 			m_dwShmSize = 0;
 			m_pShmBuf = NULL;
@@ -40,11 +45,14 @@ namespace lce
 		inline bool attach()
 		{
 			m_bCreate = false;
-			if ((m_pShmBuf = (shmat(m_iShmID, NULL, 0))) == (char *)-1)
+			detach();
+			if ((m_pShmBuf = (shmat(m_iShmID, NULL, m_bReadOnly ? SHM_RDONLY : 0))) == (char *)-1)
 			{
+				m_pShmBuf = NULL;
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat error:%s", strerror(errno));
 				return false;
 			}
+			m_pAttached.reset(m_pShmBuf, shmdt);
 			return true;
 		}
 
@@ -56,6 +64,8 @@ namespace lce
 			m_iShmKey = rhs.m_iShmKey;
 			m_dwShmSize = rhs.m_dwShmSize;
 			m_pShmBuf = rhs.m_pShmBuf;
+			m_pAttached = rhs.m_pAttached;
+			m_bReadOnly = rhs.m_bReadOnly;
 			memcpy(m_szErrMsg, rhs.m_szErrMsg, sizeof(m_szErrMsg));
 			m_iShmID = rhs.m_iShmID;
 		}
@@ -67,6 +77,8 @@ namespace lce
 				m_iShmKey = rhs.m_iShmKey;
 				m_dwShmSize = rhs.m_dwShmSize;
 				m_pShmBuf = rhs.m_pShmBuf;
+				m_pAttached = rhs.m_pAttached;
+				m_bReadOnly = rhs.m_bReadOnly;
 				memcpy(m_szErrMsg, rhs.m_szErrMsg, sizeof(m_szErrMsg));
 				m_iShmID = rhs.m_iShmID;
 			}
@@ -81,33 +93,27 @@ namespace lce
 	private:
 		char m_szErrMsg[256];
 		bool m_bCreate;
+		bool m_bReadOnly;
 
 		int m_iShmKey;
 		unsigned long m_dwShmSize;
 		void *m_pShmBuf;
+		std::shared_ptr<void> m_pAttached; // detaches when the last copy lets go
 		int m_iShmID;
 	};
 
 	bool CShm::detach()
 	{
-		if (m_pShmBuf != NULL)
-		{
-			if (shmdt(m_pShmBuf) < 0)
-			{
-				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmdt error:%s", strerror(errno));
-				return false;
-			}
-			else
-			{
-				m_pShmBuf = NULL;
-			}
-		}
+		m_pShmBuf = NULL;
+		m_pAttached.reset();
 		return true;
 	}
 
 	bool CShm::create(const int iKey, const unsigned long dwSize, const bool bCreate /* =true  */, const bool bReadOnly /* = false*/)
 	{
 		m_bCreate = false;
+		m_bReadOnly = bReadOnly;
+		detach();
 
 		int iFlag = 0666;
 		if (bCreate)
@@ -132,10 +138,12 @@ namespace lce
 
 		if ((m_pShmBuf = (shmat(m_iShmID, NULL, bReadOnly ? SHM_RDONLY : 0))) == (char *)-1)
 		{
+			m_pShmBuf = NULL;
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat<m_iShmID=%d> error:%s", m_iShmID, strerror(errno));
 			return false;
 		}
 
+		m_pAttached.reset(m_pShmBuf, shmdt);
 		m_iShmKey = iKey;
 		m_dwShmSize = dwSize;
 		return true;
-- 
2.43.0


From 6c3c72259f3bafd1b5d21e9c3fc312e614fde884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 082/156] fix: CBitmap accepted the index behind its last
 element

---
 include/CBitMap.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 8c89402..20a5a14 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -65,7 +65,7 @@ namespace lce
 
 		bool get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -82,7 +82,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfe, 0xfd, 0xfb, 0xf7, 0xef, 0xdf, 0xbf, 0x7f};
 			char cFlag = bVal ? 1 : 0;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -167,7 +167,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -184,7 +184,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfc, 0xf3, 0xcf, 0x3f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -267,7 +267,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -283,7 +283,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -366,7 +366,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -383,7 +383,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xf0, 0x0f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -466,7 +466,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -482,7 +482,7 @@ namespace lce
 			static uint64_t caUinFlag[] = {0xFFFFFFFFFFFFFFE0LL, 0xFFFFFFFFFFFFFC1FLL, 0xFFFFFFFFFFFF83FFLL, 0xFFFFFFFFFFF07FFFLL, 0xFFFFFFFFFE0FFFFFLL, 0xFFFFFFFFC1FFFFFFLL, 0xFFFFFFF83FFFFFFFLL, 0xFFFFFF07FFFFFFFFLL};
 			uint64_t ui64Flag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -565,7 +565,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -581,7 +581,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -663,7 +663,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -673,7 +673,7 @@ namespace lce
 
 		bool set(const unsigned long dwIndex, const unsigned char ucVal)
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
-- 
2.43.0


From 9cd1416ee90ca563bf7278fdc8002adcffaac8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 083/156] fix: CBitmap wrote over-wide values into the next
 element

---
 include/CBitMap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 20a5a14..11b9e89 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -182,7 +182,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned char caUinFlag[] = {0xfc, 0xf3, 0xcf, 0x3f};
-			unsigned long ucFlag = ucVal;
+			unsigned long ucFlag = ucVal & 0x3;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -281,7 +281,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
-			unsigned long dwFlag = ucVal;
+			unsigned long dwFlag = ucVal & 0x7;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -381,7 +381,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned char caUinFlag[] = {0xf0, 0x0f};
-			unsigned long ucFlag = ucVal;
+			unsigned long ucFlag = ucVal & 0xF;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -480,7 +480,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static uint64_t caUinFlag[] = {0xFFFFFFFFFFFFFFE0LL, 0xFFFFFFFFFFFFFC1FLL, 0xFFFFFFFFFFFF83FFLL, 0xFFFFFFFFFFF07FFFLL, 0xFFFFFFFFFE0FFFFFLL, 0xFFFFFFFFC1FFFFFFLL, 0xFFFFFFF83FFFFFFFLL, 0xFFFFFF07FFFFFFFFLL};
-			uint64_t ui64Flag = ucVal;
+			uint64_t ui64Flag = ucVal & 0x1F;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -579,7 +579,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
-			unsigned long dwFlag = ucVal;
+			unsigned long dwFlag = ucVal & 0x3F;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
-- 
2.43.0


From c66c13cafd3d614935b7288acb3133484234b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 084/156] fix: CBitmap of 3, 5 and 6 bits wiped later elements
 and wrote behind its memory

---
 include/CBitMap.h | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 11b9e89..23f667f 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -272,7 +272,9 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) >> (dwIndex % 8 * 3);
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 8) * 3, 3);
+			dwTmpValue = dwTmpValue >> (dwIndex % 8 * 3);
 			dwTmpValue = dwTmpValue & 0x7;
 			return dwTmpValue;
 		}
@@ -292,8 +294,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 3);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) |= dwFlag;				   //
+			unsigned long dwGroup = 0;
+			memcpy(&dwGroup, m_pDataPtr + (dwIndex / 8) * 3, 3);
+			dwGroup &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwGroup |= dwFlag;
+			memcpy(m_pDataPtr + (dwIndex / 8) * 3, &dwGroup, 3);
 
 			return true;
 		}
@@ -471,7 +476,9 @@ namespace lce
 				return false;
 			}
 
-			uint64_t ui64TmpValue = *(int64_t *)(m_pDataPtr + (dwIndex / 8) * 5) >> (dwIndex % 8 * 5);
+			uint64_t ui64TmpValue = 0;
+			memcpy(&ui64TmpValue, m_pDataPtr + (dwIndex / 8) * 5, 5);
+			ui64TmpValue = ui64TmpValue >> (dwIndex % 8 * 5);
 			ui64TmpValue = ui64TmpValue & 0x1F;
 			return (int)ui64TmpValue;
 		}
@@ -491,8 +498,11 @@ namespace lce
 
 			ui64Flag = ui64Flag << (iIndexBitPos * 5);
 
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) |= ui64Flag;				  //
+			uint64_t ui64Group = 0;
+			memcpy(&ui64Group, m_pDataPtr + (dwIndex / 8) * 5, 5);
+			ui64Group &= caUinFlag[iIndexBitPos]; // 清位为0
+			ui64Group |= ui64Flag;
+			memcpy(m_pDataPtr + (dwIndex / 8) * 5, &ui64Group, 5);
 
 			return true;
 		}
@@ -570,7 +580,9 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) >> (dwIndex % 4 * 6);
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 4) * 3, 3);
+			dwTmpValue = dwTmpValue >> (dwIndex % 4 * 6);
 			dwTmpValue = dwTmpValue & 0x3F;
 			return dwTmpValue;
 		}
@@ -590,8 +602,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 6);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) |= dwFlag;				   //
+			unsigned long dwGroup = 0;
+			memcpy(&dwGroup, m_pDataPtr + (dwIndex / 4) * 3, 3);
+			dwGroup &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwGroup |= dwFlag;
+			memcpy(m_pDataPtr + (dwIndex / 4) * 3, &dwGroup, 3);
 
 			return true;
 		}
-- 
2.43.0


From 8f8d31bb418f5e5a3ef005baaccd35a73e95277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 085/156] fix: CBitmap could be used before or after a failed
 init, and stayed on its old segment when set up again

---
 include/CBitMap.h | 168 +++++++++++++++++++++++++++-------------------
 1 file changed, 98 insertions(+), 70 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 23f667f..e47f5dd 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -21,22 +21,21 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = (dwBitmapSize + 7) / 8 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0; // nothing there until it succeeded
+			m_pHead = NULL;
+			m_pDataPtr = NULL;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -60,6 +59,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -97,11 +97,15 @@ namespace lce
 			return true;
 		}
 
-		void clear() { memset(m_pDataPtr, 0, shm_size() - sizeof(SHead)); }
+		void clear()
+		{
+			if (m_pHead != NULL)
+				memset(m_pDataPtr, 0, shm_size() - sizeof(SHead));
+		}
 
 		const char *data() const { return (char *)m_pDataPtr; }
 		size_t size() const { return m_dwMaxIndex; }
-		size_t shm_size() const { return m_pHead->dwShmSize; }
+		size_t shm_size() const { return m_pHead != NULL ? m_pHead->dwShmSize : 0; }
 
 	protected:
 	private:
@@ -123,22 +127,21 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 2 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0; // nothing there until it succeeded
+			m_pHead = NULL;
+			m_pDataPtr = NULL;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -162,6 +165,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -198,10 +202,14 @@ namespace lce
 
 			return true;
 		}
-		void clear() { memset(m_pDataPtr, 0, shm_size() - sizeof(SHead)); }
+		void clear()
+		{
+			if (m_pHead != NULL)
+				memset(m_pDataPtr, 0, shm_size() - sizeof(SHead));
+		}
 		const char *data() const { return (char *)m_pDataPtr; }
 		size_t size() const { return m_dwMaxIndex; }
-		size_t shm_size() const { return m_pHead->dwShmSize; }
+		size_t shm_size() const { return m_pHead != NULL ? m_pHead->dwShmSize : 0; }
 
 	protected:
 	private:
@@ -223,22 +231,21 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 3 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0; // nothing there until it succeeded
+			m_pHead = NULL;
+			m_pDataPtr = NULL;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -262,6 +269,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -302,10 +310,14 @@ namespace lce
 
 			return true;
 		}
-		void clear() { memset(m_pDataPtr, 0, shm_size() - sizeof(SHead)); }
+		void clear()
+		{
+			if (m_pHead != NULL)
+				memset(m_pDataPtr, 0, shm_size() - sizeof(SHead));
+		}
 		const char *data() const { return (char *)m_pDataPtr; }
 		size_t size() const { return m_dwMaxIndex; }
-		size_t shm_size() const { return m_pHead->dwShmSize; }
+		size_t shm_size() const { return m_pHead != NULL ? m_pHead->dwShmSize : 0; }
 
 	protected:
 	private:
@@ -327,22 +339,21 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 4 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0; // nothing there until it succeeded
+			m_pHead = NULL;
+			m_pDataPtr = NULL;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -366,6 +377,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -402,10 +414,14 @@ namespace lce
 
 			return true;
 		}
-		void clear() { memset(m_pDataPtr, 0, shm_size() - sizeof(SHead)); }
+		void clear()
+		{
+			if (m_pHead != NULL)
+				memset(m_pDataPtr, 0, shm_size() - sizeof(SHead));
+		}
 		const char *data() const { return (char *)m_pDataPtr; }
 		size_t size() const { return m_dwMaxIndex; }
-		size_t shm_size() const { return m_pHead->dwShmSize; }
+		size_t shm_size() const { return m_pHead != NULL ? m_pHead->dwShmSize : 0; }
 
 	protected:
 	private:
@@ -427,22 +443,21 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 5 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0; // nothing there until it succeeded
+			m_pHead = NULL;
+			m_pDataPtr = NULL;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -466,6 +481,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -506,10 +522,14 @@ namespace lce
 
 			return true;
 		}
-		void clear() { memset(m_pDataPtr, 0, shm_size() - sizeof(SHead)); }
+		void clear()
+		{
+			if (m_pHead != NULL)
+				memset(m_pDataPtr, 0, shm_size() - sizeof(SHead));
+		}
 		const char *data() const { return (char *)m_pDataPtr; }
 		size_t size() const { return m_dwMaxIndex; }
-		size_t shm_size() const { return m_pHead->dwShmSize; }
+		size_t shm_size() const { return m_pHead != NULL ? m_pHead->dwShmSize : 0; }
 
 	protected:
 	private:
@@ -531,22 +551,21 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 6 + sizeof(SHead);
 
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0; // nothing there until it succeeded
+			m_pHead = NULL;
+			m_pDataPtr = NULL;
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -570,6 +589,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -610,10 +630,14 @@ namespace lce
 
 			return true;
 		}
-		void clear() { memset(m_pDataPtr, 0, shm_size() - sizeof(SHead)); }
+		void clear()
+		{
+			if (m_pHead != NULL)
+				memset(m_pDataPtr, 0, shm_size() - sizeof(SHead));
+		}
 		const char *data() const { return (char *)m_pDataPtr; }
 		size_t size() const { return m_dwMaxIndex; }
-		size_t shm_size() const { return m_pHead->dwShmSize; }
+		size_t shm_size() const { return m_pHead != NULL ? m_pHead->dwShmSize : 0; }
 
 	protected:
 	private:
@@ -634,22 +658,21 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = dwBitmapSize + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0; // nothing there until it succeeded
+			m_pHead = NULL;
+			m_pDataPtr = NULL;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -673,6 +696,7 @@ namespace lce
 				m_pDataPtr = (unsigned char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -696,10 +720,14 @@ namespace lce
 			*(m_pDataPtr + dwIndex) = ucVal;
 			return true;
 		}
-		void clear() { memset(m_pDataPtr, 0, shm_size() - sizeof(SHead)); }
+		void clear()
+		{
+			if (m_pHead != NULL)
+				memset(m_pDataPtr, 0, shm_size() - sizeof(SHead));
+		}
 		const char *data() const { return (char *)m_pDataPtr; }
 		size_t size() const { return m_dwMaxIndex; }
-		size_t shm_size() const { return m_pHead->dwShmSize; }
+		size_t shm_size() const { return m_pHead != NULL ? m_pHead->dwShmSize : 0; }
 
 	protected:
 	private:
-- 
2.43.0


From 257f86094586a5b45926eaefd00ba4511bc1d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 086/156] fix: CShm told several processes that they created
 the same segment

---
 include/CShm.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/CShm.h b/include/CShm.h
index 1fb6fc6..ad21522 100644
--- a/include/CShm.h
+++ b/include/CShm.h
@@ -118,7 +118,7 @@ namespace lce
 		int iFlag = 0666;
 		if (bCreate)
 		{
-			iFlag = 0666 | IPC_CREAT;
+			iFlag = 0666 | IPC_CREAT | IPC_EXCL;
 		}
 		else
 		{
@@ -127,13 +127,15 @@ namespace lce
 
 		if ((m_iShmID = shmget(iKey, dwSize, 0666)) < 0)
 		{
-			if ((m_iShmID = shmget(iKey, dwSize, iFlag)) < 0)
+			if ((m_iShmID = shmget(iKey, dwSize, iFlag)) >= 0)
+			{
+				m_bCreate = bCreate;
+			}
+			else if (errno != EEXIST || (m_iShmID = shmget(iKey, dwSize, 0666)) < 0) // created by another process meanwhile
 			{
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmget error:%s", strerror(errno));
 				return false;
 			}
-
-			m_bCreate = true;
 		}
 
 		if ((m_pShmBuf = (shmat(m_iShmID, NULL, bReadOnly ? SHM_RDONLY : 0))) == (char *)-1)
-- 
2.43.0


From 19afcdf9f2d4c57c94983044c69c867847a15adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 087/156] fix: CShm attached a segment it had just created
 read-only, its creator crashed

---
 include/CShm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CShm.h b/include/CShm.h
index ad21522..c5c4511 100644
--- a/include/CShm.h
+++ b/include/CShm.h
@@ -138,7 +138,7 @@ namespace lce
 			}
 		}
 
-		if ((m_pShmBuf = (shmat(m_iShmID, NULL, bReadOnly ? SHM_RDONLY : 0))) == (char *)-1)
+		if ((m_pShmBuf = (shmat(m_iShmID, NULL, bReadOnly && !m_bCreate ? SHM_RDONLY : 0))) == (char *)-1) // a new segment has to be filled
 		{
 			m_pShmBuf = NULL;
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat<m_iShmID=%d> error:%s", m_iShmID, strerror(errno));
-- 
2.43.0


From 3da60ba31dc228d10dbfa27a22979537338ca457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 088/156] fix: CShmArray could be used before or after a failed
 init, and stayed on its old segment when set up again

---
 include/CShmArray.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/CShmArray.h b/include/CShmArray.h
index e8faeaf..055bfa4 100644
--- a/include/CShmArray.h
+++ b/include/CShmArray.h
@@ -26,8 +26,9 @@ namespace lce
 
     public:
         CShmArray()
-            : m_pHead(NULL)
+            : m_pHead(NULL), m_pNodes(NULL)
         {
+            m_szErrMsg[0] = 0;
         }
         ~CShmArray()
         {
@@ -43,7 +44,7 @@ namespace lce
 
         size_type size() const
         {
-            return m_pHead->dwNodeSize;
+            return m_pHead != NULL ? m_pHead->dwNodeSize : 0;
         }
 
         const char *getErrMsg() const
@@ -90,30 +91,34 @@ namespace lce
     bool CShmArray<_Tp>::init(const int iShmKey, const size_t dwNodeSize, const bool bCreate /*=true*/, const bool bReadOnly /*=false*/)
     {
         size_type dwShmMaxSize = dwNodeSize * sizeof(value_type) + sizeof(SHead);
+        m_pHead = NULL; // nothing there until it succeeded
+        m_pNodes = NULL;
+        if (dwNodeSize > ((size_type)-1 - sizeof(SHead)) / sizeof(value_type))
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "node size<%lu> is too large.", dwNodeSize);
+            return false;
+        }
         // create shm
-        if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+        if (!m_oShm.create(iShmKey, dwShmMaxSize, bCreate, bReadOnly))
         {
-            if (!m_oShm.create(iShmKey, dwShmMaxSize, bCreate, bReadOnly))
-            {
-                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-                return false;
-            }
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+            return false;
         }
 
         if (m_oShm.isCreate())
         {
             char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
 
-            // shm head
-            m_pHead = (SHead *)pShmBuf;
-
-            m_pHead->dwNodeSize = dwNodeSize;
-
             if (dwShmMaxSize <= sizeof(SHead))
             {
                 snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm max size<%lu> is small.", dwShmMaxSize);
                 return false;
             }
+
+            // shm head
+            m_pHead = (SHead *)pShmBuf;
+
+            m_pHead->dwNodeSize = dwNodeSize;
             m_pHead->pNodes = (node_type *)(sizeof(SHead));
             m_pNodes = (node_type *)this->_getAddr(m_pHead->pNodes);
         }
-- 
2.43.0


From 4b1e2170d8d94534b879b5c8ec68a1f6d528f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 089/156] fix: CShmArray crashed when it attached before the
 creator had written the header

---
 include/CShmArray.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/CShmArray.h b/include/CShmArray.h
index 055bfa4..9aa66a7 100644
--- a/include/CShmArray.h
+++ b/include/CShmArray.h
@@ -105,7 +105,14 @@ namespace lce
             return false;
         }
 
-        if (m_oShm.isCreate())
+        if (!m_oShm.isCreate() && ((SHead *)m_oShm.getShmBuf())->dwNodeSize == 0 && bReadOnly)
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm array is not set up yet.");
+            return false;
+        }
+
+        // its creator may not have come to setting it up
+        if (m_oShm.isCreate() || ((SHead *)m_oShm.getShmBuf())->dwNodeSize == 0)
         {
             char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
 
-- 
2.43.0


From 0744f82466e19a6df01ff0f15497ed6cbcd1090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 090/156] fix: CLruCache ignored its maximum size, and evicted
 entries when nothing was added

---
 include/CLruCache.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index b8e3d57..7a11a28 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -37,7 +37,7 @@ namespace lce
 
         CLruCache(size_t dwMaxSize = 10000)
         {
-            m_dwMaxSize = 10000;
+            m_dwMaxSize = dwMaxSize;
             m_dwSize = 0;
             pstHead = NULL;
             pstTail = NULL;
@@ -146,10 +146,12 @@ namespace lce
         bool set(const TKey &tKey, const TValue &tValue, uint32_t dwExpireTime = 0)
         {
             CAutoLock lock(m_oMutex);
-            if (m_mapCache.size() > m_dwMaxSize)
+            if (m_dwMaxSize == 0)
+                return false;
+
+            if (m_mapCache.size() >= m_dwMaxSize && m_mapCache.find(tKey) == m_mapCache.end())
             {
-                int i = 0;
-                for (int i = 0; i < CACHE_REMOVE_NUM; i++)
+                for (int i = 0; i < CACHE_REMOVE_NUM && m_mapCache.size() >= m_dwMaxSize; i++)
                 {
                     SNode *pstNode = getListBackNode();
                     if (pstNode != NULL)
-- 
2.43.0


From 2b74aa337171f9346e5d15f03cf2db5bc78646e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 091/156] fix: CLruCache kept a pointer to its only entry when
 that was evicted

---
 include/CLruCache.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index 7a11a28..75183df 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -81,6 +81,8 @@ namespace lce
 
             if (pstTail != NULL)
                 pstTail->next = NULL;
+            else
+                pstHead = NULL;
 
             m_dwSize--;
 
-- 
2.43.0


From 9e63ba2372415c935c72720e7089a12a18a60c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 092/156] fix: CLruCache::getSize read the map without its lock

---
 include/CLruCache.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index 75183df..9ada4b1 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -48,7 +48,11 @@ namespace lce
             clearList();
         }
 
-        size_t getSize() { return m_mapCache.size(); }
+        size_t getSize()
+        {
+            CAutoLock lock(m_oMutex);
+            return m_mapCache.size();
+        }
         size_t getMaxSize() { return m_dwMaxSize; }
 
     private:
-- 
2.43.0


From 8d6d28cadbf25784af384e02915d16706580e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 093/156] fix: CLruCacheV2 held more or nothing at all for a
 maximum below its number of parts

---
 include/CLruCache.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index 9ada4b1..067dc3d 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -259,13 +259,15 @@ namespace lce
         CLruCacheV2(size_t dwMaxSize = 10000)
         {
             m_dwMaxSize = dwMaxSize;
-            size_t dwCacheSize = dwMaxSize / CACHE_LOCK_NUM;
+            // fewer parts than entries, each part holds at least one
+            m_dwLockNum = dwMaxSize >= CACHE_LOCK_NUM ? CACHE_LOCK_NUM : (dwMaxSize > 0 ? dwMaxSize : 1);
+            size_t dwCacheSize = dwMaxSize / m_dwLockNum;
 
-            for (int i = 0; i < CACHE_LOCK_NUM; i++)
+            for (size_t i = 0; i < m_dwLockNum; i++)
             {
-                if (i == (CACHE_LOCK_NUM - 1))
+                if (i == (m_dwLockNum - 1))
                 {
-                    m_pLruCaches[i] = new CLruCache<TKey, TValue>(dwCacheSize + (dwMaxSize % CACHE_LOCK_NUM));
+                    m_pLruCaches[i] = new CLruCache<TKey, TValue>(dwCacheSize + (dwMaxSize % m_dwLockNum));
                 }
                 else
                 {
@@ -276,7 +278,7 @@ namespace lce
 
         ~CLruCacheV2()
         {
-            for (int i = 0; i < CACHE_LOCK_NUM; ++i)
+            for (size_t i = 0; i < m_dwLockNum; ++i)
             {
                 delete m_pLruCaches[i];
                 m_pLruCaches[i] = NULL;
@@ -287,7 +289,7 @@ namespace lce
         {
 
             size_t dwSize = 0;
-            for (int i = 0; i < CACHE_LOCK_NUM; ++i)
+            for (size_t i = 0; i < m_dwLockNum; ++i)
             {
                 dwSize += m_pLruCaches[i]->getSize();
             }
@@ -298,19 +300,19 @@ namespace lce
 
         bool set(const TKey &tKey, const TValue &tValue, uint32_t dwExpireTime = 0)
         {
-            size_t index = Hash(tKey) % CACHE_LOCK_NUM;
+            size_t index = Hash(tKey) % m_dwLockNum;
             return m_pLruCaches[index]->set(tKey, tValue, dwExpireTime);
         }
 
         bool get(const TKey &tKey, TValue &tValue)
         {
-            size_t index = Hash(tKey) % CACHE_LOCK_NUM;
+            size_t index = Hash(tKey) % m_dwLockNum;
             return m_pLruCaches[index]->get(tKey, tValue);
         }
 
         void clear()
         {
-            for (size_t i = 0; i < CACHE_LOCK_NUM; ++i)
+            for (size_t i = 0; i < m_dwLockNum; ++i)
             {
                 m_pLruCaches[i]->clear();
             }
@@ -318,12 +320,13 @@ namespace lce
 
         bool del(const TKey &tKey)
         {
-            size_t index = Hash(tKey) % CACHE_LOCK_NUM;
+            size_t index = Hash(tKey) % m_dwLockNum;
             return m_pLruCaches[index]->del(tKey);
         }
 
     private:
         CLruCache<TKey, TValue> *m_pLruCaches[CACHE_LOCK_NUM];
+        size_t m_dwLockNum;
         size_t m_dwMaxSize;
     };
 
-- 
2.43.0


From ac8a3e94e752facc8cab2bcf6c7e379da40c5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 094/156] fix: CAsyncLog crashed when used or destroyed before
 init and leaked its buffers and thread when initialised twice

---
 include/CAsyncLog.h |  1 +
 src/CAsyncLog.cpp   | 30 +++++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 3c7ad8c..1d7b588 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -23,6 +23,7 @@ namespace lce
 	{
 
 	public:
+		CAsyncLog();
 		~CAsyncLog(void);
 
 		bool init(const std::string &sLogFilePath = "", int iLogSecs = 1, const unsigned long dwLogFileMaxSize = 1024 * 1024 * 10, const unsigned int uiLogFileNum = 5, const bool bShowCmd = false, const unsigned long dwBufSize = 1024 * 1024);
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 413b4ec..93a2138 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -3,6 +3,19 @@
 namespace lce
 {
 
+	CAsyncLog::CAsyncLog()
+	{
+		m_szErrMsg[0] = 0;
+		m_poWriteBuffer1 = NULL;
+		m_poWriteBuffer2 = NULL;
+		m_poCurWirteBuffer = NULL;
+		m_iCurWriteBufferFlag = 0;
+		m_iLogSecs = 1;
+		m_dwLogFileMaxSize = 0;
+		m_uiLogFileNum = 0;
+		m_bShowCmd = false;
+	}
+
 	CAsyncLog::~CAsyncLog()
 	{
 		if (m_ofsOutFile.is_open())
@@ -18,6 +31,11 @@ namespace lce
 
 	bool CAsyncLog::init(const std::string &sLogFilePath, int iLogSecs, const unsigned long dwLogFileMaxSize, const unsigned int uiLogFileNum, const bool bShowCmd, const unsigned long dwBufSize)
 	{
+		if (m_poCurWirteBuffer != NULL)
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "log is already init");
+			return false;
+		}
 
 		m_sCurDate = getDate();
 		m_sLogFilePath = sLogFilePath + "_" + m_sCurDate + ".log",
@@ -35,7 +53,11 @@ namespace lce
 		m_iLogSecs = iLogSecs;
 		m_iCurWriteBufferFlag = 1;
 
-		start();
+		if (start() < 0)
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "start log thread error");
+			return false;
+		}
 
 		return true;
 	}
@@ -204,6 +226,12 @@ namespace lce
 
 		CAutoLock oLock(m_mutex);
 
+		if (m_poCurWirteBuffer == NULL)
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "log is not init");
+			return false;
+		}
+
 		if (m_bShowCmd)
 		{
 			std::cout << str << std::endl;
-- 
2.43.0


From 58c4eb7a766843d1be23f99c3e2437215a5e3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 095/156] fix: destroying a CAsyncLog freed the buffers under
 its running thread and lost the records not yet written

---
 include/CAsyncLog.h | 2 ++
 src/CAsyncLog.cpp   | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 1d7b588..530be96 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -2,6 +2,7 @@
 #define __LCE_ASYNC_LOG_H__
 
 #include "CLock.h"
+#include <atomic>
 #include <string>
 #include <fstream>
 #include <sstream>
@@ -93,6 +94,7 @@ namespace lce
 		unsigned int m_uiLogFileNum;
 		bool m_bShowCmd;
 		lce::CMutex m_mutex;
+		std::atomic<bool> m_bExit;
 	};
 
 };
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 93a2138..8f44fe5 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -14,10 +14,15 @@ namespace lce
 		m_dwLogFileMaxSize = 0;
 		m_uiLogFileNum = 0;
 		m_bShowCmd = false;
+		m_bExit = false;
 	}
 
 	CAsyncLog::~CAsyncLog()
 	{
+		m_bExit = true;
+		join();
+		flush();
+
 		if (m_ofsOutFile.is_open())
 		{
 			m_ofsOutFile.close();
@@ -184,7 +189,7 @@ namespace lce
 	int CAsyncLog::run()
 	{
 		int iMillSecs = 0;
-		while (true)
+		while (!m_bExit)
 		{
 			usleep(100000);
 
-- 
2.43.0


From 1635317a5a25e5e996ddc269a0f5c387055f8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 096/156] fix: CAsyncLog lost, repeated or reordered records
 when flushed from two threads or when a buffer filled up during a flush

---
 include/CAsyncLog.h |  5 ++-
 src/CAsyncLog.cpp   | 75 +++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 28 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 530be96..168c592 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -75,6 +75,8 @@ namespace lce
 		bool writeFile(const char *data, size_t size, const bool bEnd = true);
 
 		bool writeBuffer(const std::string &str, const bool bEnd = true);
+		void switchBuffer();
+		void setErrMsg(const char *sFormat, ...);
 
 	private:
 		char m_szErrMsg[1024];
@@ -82,7 +84,8 @@ namespace lce
 		CLogBuffer *m_poWriteBuffer1;
 		CLogBuffer *m_poWriteBuffer2;
 		CLogBuffer *m_poCurWirteBuffer;
-		volatile int m_iCurWriteBufferFlag;
+		CLogBuffer *m_poFullBuffer; // filled before the current one, not yet in the file
+		lce::CMutex m_flushMutex;
 
 		std::string m_sCurDate;
 
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 8f44fe5..289664f 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -9,7 +9,7 @@ namespace lce
 		m_poWriteBuffer1 = NULL;
 		m_poWriteBuffer2 = NULL;
 		m_poCurWirteBuffer = NULL;
-		m_iCurWriteBufferFlag = 0;
+		m_poFullBuffer = NULL;
 		m_iLogSecs = 1;
 		m_dwLogFileMaxSize = 0;
 		m_uiLogFileNum = 0;
@@ -56,7 +56,6 @@ namespace lce
 		m_poWriteBuffer2->init(dwBufSize);
 		m_poCurWirteBuffer = m_poWriteBuffer1;
 		m_iLogSecs = iLogSecs;
-		m_iCurWriteBufferFlag = 1;
 
 		if (start() < 0)
 		{
@@ -97,7 +96,7 @@ namespace lce
 			{
 				if (remove(szLogFileName) < 0)
 				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "remove error: errno=%d.", errno);
+					setErrMsg("remove error: errno=%d.", errno);
 					return false;
 				}
 			}
@@ -114,7 +113,7 @@ namespace lce
 					snprintf(szNewLogFileName, sizeof(szNewLogFileName), "%s_%s_%d.log", m_sLogBasePath.c_str(), getDate().c_str(), i + 1);
 					if (rename(szLogFileName, szNewLogFileName) < 0)
 					{
-						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "rename error:errno=%d.", errno);
+						setErrMsg("rename error:errno=%d.", errno);
 						return false;
 					}
 				}
@@ -139,7 +138,7 @@ namespace lce
 
 		if (m_ofsOutFile.fail())
 		{
-			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "open file<%s> err!", m_sLogFilePath.c_str());
+			setErrMsg("open file<%s> err!", m_sLogFilePath.c_str());
 			return false;
 		}
 
@@ -170,7 +169,7 @@ namespace lce
 
 		if (m_ofsOutFile.fail())
 		{
-			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "open file<%s> err!", m_sLogFilePath.c_str());
+			setErrMsg("open file<%s> err!", m_sLogFilePath.c_str());
 			return false;
 		}
 
@@ -193,7 +192,11 @@ namespace lce
 		{
 			usleep(100000);
 
-			if ((iMillSecs >= m_iLogSecs * 1000 && m_poCurWirteBuffer->size() > 0) || m_poCurWirteBuffer->full())
+			m_mutex.lock();
+			bool bFlush = (iMillSecs >= m_iLogSecs * 1000 && m_poCurWirteBuffer->size() > 0) || m_poCurWirteBuffer->full() || m_poFullBuffer != NULL;
+			m_mutex.unlock();
+
+			if (bFlush)
 			{
 				flush();
 				iMillSecs = 0;
@@ -205,27 +208,49 @@ namespace lce
 
 	void CAsyncLog::flush()
 	{
-		if (m_iCurWriteBufferFlag == 1)
+		CAutoLock oFlushLock(m_flushMutex);
+
+		for (int i = 0; i < 2; i++) // the full buffer, then the current one
 		{
 			m_mutex.lock();
-			m_poCurWirteBuffer = m_poWriteBuffer2;
+			bool bLast = m_poFullBuffer == NULL;
+			if (bLast && m_poCurWirteBuffer != NULL)
+				switchBuffer();
+			CLogBuffer *pFullBuffer = m_poFullBuffer;
 			m_mutex.unlock();
 
-			writeFile(m_poWriteBuffer1->data(), m_poWriteBuffer1->size(), false);
-			m_poWriteBuffer1->reset();
-			m_iCurWriteBufferFlag = 2;
-		}
-		else if (m_iCurWriteBufferFlag == 2)
-		{
+			if (pFullBuffer == NULL)
+				return;
+
+			if (!pFullBuffer->empty() && !writeFile(pFullBuffer->data(), pFullBuffer->size(), false))
+				return; // keep it for the next time
+
 			m_mutex.lock();
-			m_poCurWirteBuffer = m_poWriteBuffer1;
+			pFullBuffer->reset();
+			m_poFullBuffer = NULL;
 			m_mutex.unlock();
-			writeFile(m_poWriteBuffer2->data(), m_poWriteBuffer2->size(), false);
-			m_poWriteBuffer2->reset();
-			m_iCurWriteBufferFlag = 1;
+
+			if (bLast)
+				return;
 		}
 	}
 
+	void CAsyncLog::switchBuffer()
+	{
+		m_poFullBuffer = m_poCurWirteBuffer;
+		m_poCurWirteBuffer = m_poFullBuffer == m_poWriteBuffer1 ? m_poWriteBuffer2 : m_poWriteBuffer1;
+	}
+
+	void CAsyncLog::setErrMsg(const char *sFormat, ...)
+	{
+		CAutoLock oLock(m_mutex);
+		va_list ap;
+
+		va_start(ap, sFormat);
+		vsnprintf(m_szErrMsg, sizeof(m_szErrMsg), sFormat, ap);
+		va_end(ap);
+	}
+
 	bool CAsyncLog::writeBuffer(const std::string &str, const bool bEnd)
 	{
 
@@ -248,15 +273,11 @@ namespace lce
 
 		if (!bFlag)
 		{
-			if (m_poCurWirteBuffer == m_poWriteBuffer1)
-			{
-				bFlag = m_poWriteBuffer2->write(str.data(), str.size());
-				pWriteBuffer = m_poWriteBuffer2;
-			}
-			else if (m_poCurWirteBuffer == m_poWriteBuffer2)
+			if (m_poFullBuffer == NULL && !pWriteBuffer->empty())
 			{
-				bFlag = m_poWriteBuffer1->write(str.data(), str.size());
-				pWriteBuffer = m_poWriteBuffer1;
+				switchBuffer();
+				pWriteBuffer = m_poCurWirteBuffer;
+				bFlag = pWriteBuffer->write(str.data(), str.size());
 			}
 		}
 
-- 
2.43.0


From f1cabc75f66b60b08e87d49bdeae9f85137326f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 097/156] fix: CAsyncLog dropped the line end of a record that
 filled its buffer exactly

---
 src/CAsyncLog.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 289664f..c52fbb0 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -269,7 +269,8 @@ namespace lce
 
 		CLogBuffer *pWriteBuffer = m_poCurWirteBuffer;
 
-		bool bFlag = pWriteBuffer->write(str.data(), str.size());
+		const std::string sLine = bEnd ? str + "\n" : str;
+		bool bFlag = pWriteBuffer->write(sLine.data(), sLine.size());
 
 		if (!bFlag)
 		{
@@ -277,15 +278,10 @@ namespace lce
 			{
 				switchBuffer();
 				pWriteBuffer = m_poCurWirteBuffer;
-				bFlag = pWriteBuffer->write(str.data(), str.size());
+				bFlag = pWriteBuffer->write(sLine.data(), sLine.size());
 			}
 		}
 
-		if (bEnd && bFlag)
-		{
-			pWriteBuffer->write("\n", 1);
-		}
-
 		if (!bFlag)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "buffer is full");
-- 
2.43.0


From a73053146d1cd08c2b7615fb62012620eda35778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 098/156] fix: log records longer than 10239 (CLog: 3999) bytes
 were cut off

---
 include/CLog.h    |  6 ++----
 include/Utils.h   | 17 +++++++++++++++++
 src/CAsyncLog.cpp |  6 ++----
 src/CFileLog.cpp  |  7 ++-----
 4 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/CLog.h b/include/CLog.h
index 69ca3ff..11b11da 100644
--- a/include/CLog.h
+++ b/include/CLog.h
@@ -51,14 +51,12 @@ namespace lce
                 return;
             }
 
-            char szTemp[4000];
             va_list ap;
 
             va_start(ap, sFormat);
-            memset(szTemp, 0, sizeof(szTemp));
-
-            vsnprintf(szTemp, sizeof(szTemp), sFormat, ap);
+            const std::string sTemp = FormatString(sFormat, ap);
             va_end(ap);
+            const char *szTemp = sTemp.c_str();
 
             switch (cLogLevel)
             {
diff --git a/include/Utils.h b/include/Utils.h
index fc7b0fe..1773768 100755
--- a/include/Utils.h
+++ b/include/Utils.h
@@ -29,6 +29,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <netinet/tcp.h>
+#include <stdarg.h>
 #include <string>
 #include <map>
 #include <vector>
@@ -80,6 +81,22 @@ namespace lce
 		return tv.tv_sec * 1000 + tv.tv_usec / 1000;
 	}
 
+	// printf of any length
+	inline std::string FormatString(const char *sFormat, va_list ap)
+	{
+		va_list apLen;
+		va_copy(apLen, ap);
+		int iLen = vsnprintf(NULL, 0, sFormat, apLen);
+		va_end(apLen);
+		if (iLen <= 0)
+			return "";
+
+		std::string sText(iLen + 1, 0);
+		vsnprintf(&sText[0], sText.size(), sFormat, ap);
+		sText.resize(iLen);
+		return sText;
+	}
+
 	inline std::string GetTimeString()
 	{
 		time_t t = time(0);
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index c52fbb0..0291e11 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -296,15 +296,13 @@ namespace lce
 	bool CAsyncLog::write(const char *sFormat, ...)
 	{
 
-		char szTemp[10240];
 		va_list ap;
 
 		va_start(ap, sFormat);
-		vsnprintf(szTemp, sizeof(szTemp), sFormat, ap);
-		va_end(ap);
 		std::string sLog;
 		sLog = "[" + getDateTime() + "]:";
-		sLog += szTemp;
+		sLog += FormatString(sFormat, ap);
+		va_end(ap);
 
 		if (!writeBuffer(sLog))
 		{
diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index ec3ecc3..05fde8a 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -126,16 +126,13 @@ namespace lce
 	{
 
 		lce::CAutoLock autoLock(m_mutex);
-		char szTemp[10240];
 		va_list ap;
 
 		va_start(ap, sFormat);
-		memset(szTemp, 0, sizeof(szTemp));
-		vsnprintf(szTemp, sizeof(szTemp), sFormat, ap);
-		va_end(ap);
 		std::string sLog;
 		sLog = "[" + getDateTime() + "]:";
-		sLog += szTemp;
+		sLog += FormatString(sFormat, ap);
+		va_end(ap);
 
 		if (!writeFile(sLog))
 			return false;
-- 
2.43.0


From 4727650e4984dc9030b4b81b42670e7ea73394ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 099/156] fix: threads writing log time stamps shared the
 static result of localtime

---
 include/CAsyncLog.h | 4 ++--
 include/CFileLog.h  | 4 ++--
 include/Utils.h     | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 168c592..f85ec3e 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -54,7 +54,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -65,7 +65,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
diff --git a/include/CFileLog.h b/include/CFileLog.h
index 96fdb73..212096a 100644
--- a/include/CFileLog.h
+++ b/include/CFileLog.h
@@ -66,7 +66,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -77,7 +77,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
diff --git a/include/Utils.h b/include/Utils.h
index 1773768..0a9b394 100755
--- a/include/Utils.h
+++ b/include/Utils.h
@@ -101,7 +101,8 @@ namespace lce
 	{
 		time_t t = time(0);
 		char ch[64];
-		strftime(ch, sizeof(ch), "%Y-%m-%d %H:%M:%S", localtime(&t)); // 年-月-日 时-分-秒
+		struct tm stTime;
+		strftime(ch, sizeof(ch), "%Y-%m-%d %H:%M:%S", localtime_r(&t, &stTime)); // 年-月-日 时-分-秒
 		return ch;
 	}
 
-- 
2.43.0


From 61393dcc9db2acb1e4a8d666f4f0b5fab67c851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 100/156] fix: CLog levels are bits of a mask, but WARN was
 DEBUG and INFO together and could not be switched on or off by itself

---
 include/CLog.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CLog.h b/include/CLog.h
index 11b11da..b11e3d5 100644
--- a/include/CLog.h
+++ b/include/CLog.h
@@ -21,8 +21,8 @@ namespace lce
 
             LEVEL_DEBUG = 1,
             LEVEL_INFO = 2,
-            LEVEL_WARN = 3,
-            LEVEL_ERROR = 4,
+            LEVEL_WARN = 4,
+            LEVEL_ERROR = 8,
         };
 
     public:
-- 
2.43.0


From e5762082dd7b0c1afa7c6419249c47803a575dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 101/156] fix: logs limited to one file never rotated and grew
 without bound

---
 src/CAsyncLog.cpp | 5 ++++-
 src/CFileLog.cpp  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 0291e11..008932c 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -91,7 +91,10 @@ namespace lce
 			char szLogFileName[1024];
 			char szNewLogFileName[1024];
 
-			snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			if (m_uiLogFileNum > 1)
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			else
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), getDate().c_str());
 			if (access(szLogFileName, F_OK) == 0)
 			{
 				if (remove(szLogFileName) < 0)
diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index 05fde8a..f57a543 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -46,7 +46,10 @@ namespace lce
 			char szLogFileName[1024];
 			char szNewLogFileName[1024];
 
-			snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			if (m_uiLogFileNum > 1)
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			else
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), getDate().c_str());
 			if (access(szLogFileName, F_OK) == 0)
 			{
 				if (remove(szLogFileName) < 0)
-- 
2.43.0


From ee3891f1760b3b66dce7d8f1af0465d4add21db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 102/156] fix: CFileLog used uninitialised settings before init
 and kept writing to the old file when initialised again

---
 include/CFileLog.h |  1 +
 src/CFileLog.cpp   | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/CFileLog.h b/include/CFileLog.h
index 212096a..05c6aef 100644
--- a/include/CFileLog.h
+++ b/include/CFileLog.h
@@ -22,6 +22,7 @@ namespace lce
 	{
 
 	public:
+		CFileLog();
 		~CFileLog();
 
 		bool init(const std::string &sLogFilePath,
diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index f57a543..d24aa7e 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -3,6 +3,14 @@
 namespace lce
 {
 
+	CFileLog::CFileLog()
+	{
+		m_szErrMsg[0] = 0;
+		m_dwLogFileMaxSize = 0;
+		m_uiLogFileNum = 0;
+		m_bShowCmd = false;
+	}
+
 	CFileLog::~CFileLog()
 	{
 		if (m_ofsOutFile.is_open())
@@ -13,6 +21,13 @@ namespace lce
 
 	bool CFileLog::init(const std::string &sLogFilePath, const unsigned long dwLogFileMaxSize, const unsigned int uiLogFileNum, const bool bShowCmd)
 	{
+		CAutoLock autoLock(m_mutex);
+
+		if (m_ofsOutFile.is_open())
+		{
+			m_ofsOutFile.close();
+		}
+
 		m_sCurDate = getDate();
 		m_sLogFilePath = sLogFilePath + "_" + m_sCurDate + ".log",
 		m_sLogBasePath = sLogFilePath;
@@ -83,6 +98,11 @@ namespace lce
 
 	bool CFileLog::writeFile(const std::string &str, const bool bEnd)
 	{
+		if (m_sLogFilePath.empty())
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "log is not init");
+			return false;
+		}
 
 		if (m_bShowCmd)
 		{
-- 
2.43.0


From cea88d587a302598a2447cdf727575dec4f63e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 103/156] fix: a failed write to a log file was reported as
 success and silenced the log for good

---
 src/CAsyncLog.cpp | 7 +++++++
 src/CFileLog.cpp  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 008932c..b3f96cc 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -185,6 +185,13 @@ namespace lce
 
 		m_ofsOutFile.flush();
 
+		if (m_ofsOutFile.fail())
+		{
+			m_ofsOutFile.close(); // opened again, with a clean state, by the next write
+			setErrMsg("write file<%s> err!", m_sLogFilePath.c_str());
+			return false;
+		}
+
 		return true;
 	}
 
diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index d24aa7e..237eb28 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -142,6 +142,13 @@ namespace lce
 			m_ofsOutFile << std::endl;
 		}
 
+		if (m_ofsOutFile.fail())
+		{
+			m_ofsOutFile.close(); // opened again, with a clean state, by the next write
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "write file<%s> err!", m_sLogFilePath.c_str());
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From a3e1806759e6b8f7f3cad7f36b158b40ebf76c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:29 +0000
Subject: [PATCH 104/156] fix: a day change in the middle of a rotation left a
 log writing to the file of the wrong day

---
 src/CAsyncLog.cpp | 17 +++++++++--------
 src/CFileLog.cpp  | 17 +++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index b3f96cc..ed51e22 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -69,10 +69,11 @@ namespace lce
 	bool CAsyncLog::shiftFiles()
 	{
 
-		if (m_sCurDate != getDate())
+		const std::string sDate = getDate(); // the day may change at any time
+		if (m_sCurDate != sDate)
 		{
-			m_sLogFilePath = m_sLogBasePath + "_" + getDate() + ".log";
-			m_sCurDate = getDate();
+			m_sLogFilePath = m_sLogBasePath + "_" + sDate + ".log";
+			m_sCurDate = sDate;
 			if (m_ofsOutFile.is_open())
 			{
 				m_ofsOutFile.close();
@@ -92,9 +93,9 @@ namespace lce
 			char szNewLogFileName[1024];
 
 			if (m_uiLogFileNum > 1)
-				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), sDate.c_str(), m_uiLogFileNum - 1);
 			else
-				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), getDate().c_str());
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), sDate.c_str());
 			if (access(szLogFileName, F_OK) == 0)
 			{
 				if (remove(szLogFileName) < 0)
@@ -107,13 +108,13 @@ namespace lce
 			for (int i = m_uiLogFileNum - 2; i >= 0; i--)
 			{
 				if (i == 0)
-					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), getDate().c_str());
+					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), sDate.c_str());
 				else
-					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), i);
+					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), sDate.c_str(), i);
 
 				if (access(szLogFileName, F_OK) == 0)
 				{
-					snprintf(szNewLogFileName, sizeof(szNewLogFileName), "%s_%s_%d.log", m_sLogBasePath.c_str(), getDate().c_str(), i + 1);
+					snprintf(szNewLogFileName, sizeof(szNewLogFileName), "%s_%s_%d.log", m_sLogBasePath.c_str(), sDate.c_str(), i + 1);
 					if (rename(szLogFileName, szNewLogFileName) < 0)
 					{
 						setErrMsg("rename error:errno=%d.", errno);
diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index 237eb28..c0b734d 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -40,10 +40,11 @@ namespace lce
 	bool CFileLog::shiftFiles()
 	{
 
-		if (m_sCurDate != getDate())
+		const std::string sDate = getDate(); // the day may change at any time
+		if (m_sCurDate != sDate)
 		{
-			m_sLogFilePath = m_sLogBasePath + "_" + getDate() + ".log";
-			m_sCurDate = getDate();
+			m_sLogFilePath = m_sLogBasePath + "_" + sDate + ".log";
+			m_sCurDate = sDate;
 			if (m_ofsOutFile.is_open())
 			{
 				m_ofsOutFile.close();
@@ -62,9 +63,9 @@ namespace lce
 			char szNewLogFileName[1024];
 
 			if (m_uiLogFileNum > 1)
-				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), sDate.c_str(), m_uiLogFileNum - 1);
 			else
-				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), getDate().c_str());
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), sDate.c_str());
 			if (access(szLogFileName, F_OK) == 0)
 			{
 				if (remove(szLogFileName) < 0)
@@ -77,13 +78,13 @@ namespace lce
 			for (int i = m_uiLogFileNum - 2; i >= 0; i--)
 			{
 				if (i == 0)
-					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), getDate().c_str());
+					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), sDate.c_str());
 				else
-					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), i);
+					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), sDate.c_str(), i);
 
 				if (access(szLogFileName, F_OK) == 0)
 				{
-					snprintf(szNewLogFileName, sizeof(szNewLogFileName), "%s_%s_%d.log", m_sLogBasePath.c_str(), getDate().c_str(), i + 1);
+					snprintf(szNewLogFileName, sizeof(szNewLogFileName), "%s_%s_%d.log", m_sLogBasePath.c_str(), sDate.c_str(), i + 1);
 					if (rename(szLogFileName, szNewLogFileName) < 0)
 					{
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "rename error:errno=%d.", errno);
-- 
2.43.0


From 9694766aa96121ae4411390429a4a69d3220ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 105/156] fix: CHttpReader left the query of HEAD requests in
 the path

---
 src/CHttpReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 82d5bdd..517d3f1 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -72,7 +72,7 @@ namespace lce
 				return false;
 			}
 
-			if (m_nCommand == GET)
+			if (m_nCommand == GET || m_nCommand == HEAD)
 			{
 				string::size_type tmpPos = m_sURI.find('?');
 				if (tmpPos != string::npos)
-- 
2.43.0


From 6bca7c4e80d44058ab2adaeb5c358698afe2dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 106/156] fix: CHttpReader returned unsigned values above 2^63
 as 2^63-1

---
 src/CHttpReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 517d3f1..ca731f9 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -224,7 +224,7 @@ namespace lce
 		MAP_COOKIE::const_iterator it = m_mapCookieList.find(sName);
 		if (it != m_mapCookieList.end())
 		{
-			dwValue = atoll(it->second.c_str());
+			dwValue = strtoull(it->second.c_str(), NULL, 10);
 		}
 		return dwValue;
 	}
@@ -298,7 +298,7 @@ namespace lce
 		MAP_VALUE::const_iterator it = m_mapValueList.find(sName);
 		if (it != m_mapValueList.end())
 		{
-			dwValue = atoll(it->second.c_str());
+			dwValue = strtoull(it->second.c_str(), NULL, 10);
 		}
 		return dwValue;
 	}
-- 
2.43.0


From 12798ea0cccff681a7d1495c834ac383b444d71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 107/156] fix: CHttpReader took text inside a quoted field or
 file name for a parameter name

---
 src/CHttpReader.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index ca731f9..b5ca367 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -7,6 +7,28 @@ namespace lce
 
 	std::string CHttpReader::m_sNull = "";
 
+	// one parameter of a head value, skipping whatever is quoted in the others
+	static string GetHeadParam(const string &sHead, const string &sParam)
+	{
+		bool bQuoted = false;
+		for (string::size_type i = 0; i < sHead.size(); ++i)
+		{
+			if (sHead[i] == '"')
+				bQuoted = !bQuoted;
+			if (bQuoted || sHead[i] != ';')
+				continue;
+
+			string::size_type pos = sHead.find_first_not_of(" \t", i + 1);
+			if (pos != string::npos && sHead.compare(pos, sParam.size() + 2, sParam + "=\"") == 0)
+			{
+				pos += sParam.size() + 2;
+				string::size_type endPos = sHead.find('"', pos);
+				return endPos == string::npos ? "" : sHead.substr(pos, endPos - pos);
+			}
+		}
+		return "";
+	}
+
 	CHttpReader::CHttpReader(void)
 	{
 		m_nCommand = GET;
@@ -489,16 +511,16 @@ namespace lce
 				break;
 			}
 
-			sName = getStrBetween(sDisposition, 0, " name=\"", "\"", pos);
-			if (pos == string::npos || sName.empty())
+			sName = GetHeadParam(sDisposition, "name");
+			if (sName.empty())
 			{
 				break;
 			}
 
 			sValue = sNV.substr(partEndPos + 4);
 			m_mapValueList[sName] = sValue;
-			m_sFileName = getStrBetween(sDisposition, 0, "filename=\"", "\"", pos);
-			if (pos == string::npos || m_sFileName.empty())
+			m_sFileName = GetHeadParam(sDisposition, "filename");
+			if (m_sFileName.empty())
 			{
 				continue;
 			}
-- 
2.43.0


From b2fd107f9cdc1f02da49a39e5de5e439a107d3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 108/156] fix: CHttpWriter used without begin() sent an
 indeterminate status

---
 include/CHttpWriter.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/CHttpWriter.h b/include/CHttpWriter.h
index f7d1b95..647e556 100755
--- a/include/CHttpWriter.h
+++ b/include/CHttpWriter.h
@@ -47,8 +47,7 @@ namespace lce
 	public:
 		CHttpWriter(void)
 		{
-			m_dwSetBodyLen = 0;
-			m_dwLastModified = 0;
+			begin();
 		}
 		~CHttpWriter(void)
 		{
-- 
2.43.0


From cad57202648398cf06625aab0f82738036d60d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 109/156] fix: CHttpWriter::begin kept the heads and the data
 of the previous response

---
 src/CHttpWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 1e06edd..f0ffabe 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -106,7 +106,9 @@ namespace lce
 	void CHttpWriter::begin()
 	{
 		m_mapCookie.clear();
+		m_mapHead.clear();
 		m_sBodyContent.erase();
+		m_sSendData.erase();
 		m_iStatusCode = 200;
 		m_sConnection = "Close";
 		m_sContentType = "text/html";
-- 
2.43.0


From 29901dc32d9b76b90021b2ac5a09cacfdb881eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 110/156] fix: CHttpWriter cut off heads of 1024 bytes and more
 together with their line end

---
 src/CHttpWriter.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index f0ffabe..16653e1 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -27,8 +27,7 @@ namespace lce
 		snprintf(szTmp, sizeof(szTmp), "HTTP/1.1 %d %s\r\n", m_iStatusCode, getStatusCodeDesc(m_iStatusCode));
 		m_sSendData = szTmp;
 
-		snprintf(szTmp, sizeof(szTmp), "Connection: %s\r\n", m_sConnection.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Connection: " + m_sConnection + "\r\n";
 
 		// Date: Wed, 22 Mar 2006 07:47:52 GMT\r\n
 		snprintf(szTmp, sizeof(szTmp), "Date: %s\r\n", GetGMTDate(time(NULL)).c_str());
@@ -48,14 +47,12 @@ namespace lce
 
 		if (!m_sCacheControl.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "Cache-Control: %s\r\n", m_sCacheControl.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "Cache-Control: " + m_sCacheControl + "\r\n";
 		}
 
 		if (!m_sETag.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "ETag: %s\r\n", m_sETag.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "ETag: " + m_sETag + "\r\n";
 		}
 
 		// length
@@ -75,8 +72,7 @@ namespace lce
 
 		for (MAP_HEAD::const_iterator it = m_mapHead.begin(); it != m_mapHead.end(); ++it)
 		{
-			snprintf(szTmp, sizeof(szTmp), "%s: %s\r\n", it->first.c_str(), it->second.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += it->first + ": " + it->second + "\r\n";
 		}
 
 		// set cookie
@@ -98,8 +94,7 @@ namespace lce
 		}
 
 		// html head end
-		snprintf(szTmp, sizeof(szTmp), "Content-Type: %s\r\n\r\n", m_sContentType.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Content-Type: " + m_sContentType + "\r\n\r\n";
 		m_sSendData += m_sBodyContent;
 	}
 
-- 
2.43.0


From 0d772637d440467137934519c2cd38c0b0c19cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 111/156] fix: CHttpWriter sent no length for empty bodies and
 a negative one beyond 2 GiB

---
 src/CHttpWriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 16653e1..58a2e61 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -63,9 +63,11 @@ namespace lce
 		}
 		else
 		{
-			if (!m_sBodyContent.empty())
+			// without a length the client waits for the end of the connection
+			bool bNoBody = m_iStatusCode < 200 || m_iStatusCode == 204 || m_iStatusCode == 304;
+			if (!m_sBodyContent.empty() || !bNoBody)
 			{
-				snprintf(szTmp, sizeof(szTmp), "Content-Length: %d\r\n", (uint32_t)m_sBodyContent.size());
+				snprintf(szTmp, sizeof(szTmp), "Content-Length: %lu\r\n", (unsigned long)m_sBodyContent.size());
 				m_sSendData += szTmp;
 			}
 		}
-- 
2.43.0


From 996dd6c051b4136617838ccf4bda041e2a3104bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 112/156] fix: CHttpWriter ignored a cookie set again

---
 include/CHttpWriter.h | 2 +-
 src/CHttpWriter.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CHttpWriter.h b/include/CHttpWriter.h
index 647e556..04b330f 100755
--- a/include/CHttpWriter.h
+++ b/include/CHttpWriter.h
@@ -65,7 +65,7 @@ namespace lce
 			stCookieInfo.sDomain = sDomain;
 			stCookieInfo.sPath = sPath;
 			stCookieInfo.sValue = sstr.str();
-			m_mapCookie.insert(MAP_COOKIE::value_type(sName, stCookieInfo));
+			m_mapCookie[sName] = stCookieInfo;
 		}
 
 		void setCookie(const string &sName, const string &sValue, const string &sDomain = "", const string &sPath = "", const time_t dwCookieTime = 0);
diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 58a2e61..7fcefc2 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -16,7 +16,7 @@ namespace lce
 		stCookieInfo.sDomain = sDomain;
 		stCookieInfo.sPath = sPath;
 		stCookieInfo.sValue = sValue;
-		m_mapCookie.insert(MAP_COOKIE::value_type(sName, stCookieInfo));
+		m_mapCookie[sName] = stCookieInfo;
 	}
 
 	void CHttpWriter::end()
-- 
2.43.0


From f7680aa20c9055f1cb9aa08c8e4848e15ccd0f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 113/156] fix: misspelled reason of HTTP status 101

---
 src/CHttpWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 7fcefc2..39d411d 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -124,7 +124,7 @@ namespace lce
 		case 100:
 			return "Continue";
 		case 101:
-			return "Witching Protocols";
+			return "Switching Protocols";
 		case 200:
 			return "OK";
 		case 201:
-- 
2.43.0


From 4f1f3868ea5900d1246134c3a32446dc01dc2295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 114/156] fix: CHttpWriter repeated heads that were set by name

---
 include/CHttpWriter.h |  9 ++++++++-
 src/CHttpWriter.cpp   | 25 ++++++++++++++++---------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/CHttpWriter.h b/include/CHttpWriter.h
index 04b330f..da035a6 100755
--- a/include/CHttpWriter.h
+++ b/include/CHttpWriter.h
@@ -42,7 +42,11 @@ namespace lce
 		};
 		typedef std::map<string, StCookieInfo> MAP_COOKIE;
 
-		typedef std::map<string, string> MAP_HEAD;
+		struct StLessNoCase
+		{
+			bool operator()(const string &sLeft, const string &sRight) const { return strcasecmp(sLeft.c_str(), sRight.c_str()) < 0; }
+		};
+		typedef std::map<string, string, StLessNoCase> MAP_HEAD;
 
 	public:
 		CHttpWriter(void)
@@ -115,6 +119,9 @@ namespace lce
 		static const char *getStatusCodeDesc(const int iCode);
 
 	private:
+		// a head set by name takes the place of the built-in one
+		bool hasHead(const char *szName) const { return m_mapHead.count(szName) != 0; }
+
 		MAP_COOKIE m_mapCookie;
 		MAP_HEAD m_mapHead;
 		string m_sBodyContent;
diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 39d411d..ce78006 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -27,36 +27,41 @@ namespace lce
 		snprintf(szTmp, sizeof(szTmp), "HTTP/1.1 %d %s\r\n", m_iStatusCode, getStatusCodeDesc(m_iStatusCode));
 		m_sSendData = szTmp;
 
-		m_sSendData += "Connection: " + m_sConnection + "\r\n";
+		if (!hasHead("Connection"))
+			m_sSendData += "Connection: " + m_sConnection + "\r\n";
 
 		// Date: Wed, 22 Mar 2006 07:47:52 GMT\r\n
 		snprintf(szTmp, sizeof(szTmp), "Date: %s\r\n", GetGMTDate(time(NULL)).c_str());
-		m_sSendData += szTmp;
+		if (!hasHead("Date"))
+			m_sSendData += szTmp;
 
-		if (m_dwLastModified > 0)
+		if (m_dwLastModified > 0 && !hasHead("Last-Modified"))
 		{
 			snprintf(szTmp, sizeof(szTmp), "Last-Modified: %s\r\n", GetGMTDate(m_dwLastModified).c_str());
 			m_sSendData += szTmp;
 		}
 
-		if (m_dwExpiresTime > 0)
+		if (m_dwExpiresTime > 0 && !hasHead("Expires"))
 		{
 			snprintf(szTmp, sizeof(szTmp), "Expires: %s\r\n", GetGMTDate(m_dwExpiresTime).c_str());
 			m_sSendData += szTmp;
 		}
 
-		if (!m_sCacheControl.empty())
+		if (!m_sCacheControl.empty() && !hasHead("Cache-Control"))
 		{
 			m_sSendData += "Cache-Control: " + m_sCacheControl + "\r\n";
 		}
 
-		if (!m_sETag.empty())
+		if (!m_sETag.empty() && !hasHead("ETag"))
 		{
 			m_sSendData += "ETag: " + m_sETag + "\r\n";
 		}
 
 		// length
-		if (m_dwSetBodyLen != 0)
+		if (hasHead("Content-Length"))
+		{
+		}
+		else if (m_dwSetBodyLen != 0)
 		{
 			snprintf(szTmp, sizeof(szTmp), "Content-Length: %lu\r\n", m_dwSetBodyLen);
 			m_sSendData += szTmp;
@@ -90,13 +95,15 @@ namespace lce
 			m_sSendData += "\r\n";
 		}
 
-		if (!m_sLocation.empty())
+		if (!m_sLocation.empty() && !hasHead("Location"))
 		{
 			m_sSendData += "Location:" + m_sLocation + "\r\n";
 		}
 
 		// html head end
-		m_sSendData += "Content-Type: " + m_sContentType + "\r\n\r\n";
+		if (!hasHead("Content-Type"))
+			m_sSendData += "Content-Type: " + m_sContentType + "\r\n";
+		m_sSendData += "\r\n";
 		m_sSendData += m_sBodyContent;
 	}
 
-- 
2.43.0


From 9ba707004f8adbb3577c7ae910017574dbdfcaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 115/156] fix: CConfig did not recognize indented sections and
 comments

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 93ff6cf..a53adf1 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -37,7 +37,7 @@ namespace lce
 			size_t i = 0;
 			for (i = 0; i < sLine.size(); i++)
 			{
-				if (sLine[i] != ' ' || sLine[i] != '\t')
+				if (sLine[i] != ' ' && sLine[i] != '\t')
 				{
 					break;
 				}
-- 
2.43.0


From 244bfdb6c458697f590aedaab0280bc4ff0ec416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 116/156] fix: CConfig stored every section line as a value

---
 src/CConfig.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index a53adf1..e9df9df 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -64,6 +64,7 @@ namespace lce
 				{
 					break;
 				}
+				break;
 			}
 			default:
 				size_t j = sLine.find('=', i);
-- 
2.43.0


From 074540eabae3e900114614fcfc19ec925469dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 117/156] fix: CConfig stored lines without an equals sign as
 values

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index e9df9df..cb24762 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -68,7 +68,7 @@ namespace lce
 			}
 			default:
 				size_t j = sLine.find('=', i);
-				if (j > i)
+				if (j != std::string::npos && j > i)
 				{
 					sName = sLine.substr(i, j - i);
 
-- 
2.43.0


From f4d334aadbf1da6d300987ca1feddcab541baaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 118/156] fix: CConfig returned unsigned values above 2^63 as
 2^63-1

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index cb24762..f133986 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -176,7 +176,7 @@ namespace lce
 			if (subIt != it->second.end())
 			{
 
-				dwValue = static_cast<unsigned long>(atoll(subIt->second.c_str()));
+				dwValue = strtoull(subIt->second.c_str(), NULL, 10);
 			}
 		}
 		return dwValue;
-- 
2.43.0


From 7989c5aaa57403ed14ee0a70e151c87ed13ad5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 119/156] fix: CConfig refused the shortest addresses

---
 src/CConfig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index f133986..6fba491 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -226,7 +226,7 @@ namespace lce
 
 		std::string sIPAndPort("");
 		getValue(sApp, sName, sIPAndPort, "");
-		if (sIPAndPort.size() >= 10)
+		if (sIPAndPort.size() >= 9)
 		{
 			std::string::size_type ID = sIPAndPort.find(":");
 			if (ID != std::string::npos)
@@ -259,7 +259,7 @@ namespace lce
 
 		std::string sServerList("");
 		getValue(sApp, sName, sServerList, "");
-		if (sServerList.size() >= 10)
+		if (sServerList.size() >= 9)
 		{
 			std::string::size_type id0 = 0, id1 = 0;
 			while (1)
-- 
2.43.0


From 045c3a69d19d07f89a263177607a59ecc72c21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 120/156] fix: CConfig turned port numbers above 65535 into
 other ports

---
 src/CConfig.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 6fba491..4443b0d 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -232,7 +232,8 @@ namespace lce
 			if (ID != std::string::npos)
 			{
 				sIP = sIPAndPort.substr(0, ID);
-				wPort = (unsigned short)atoi(sIPAndPort.substr(ID + 1).c_str());
+				long lPort = atol(sIPAndPort.substr(ID + 1).c_str());
+				wPort = lPort > 0 && lPort <= 65535 ? (unsigned short)lPort : 0;
 			}
 		}
 
-- 
2.43.0


From 58cc21f75da05547bc3b3d0d13f8c78bad3a9740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 121/156] fix: CConfig's error text was indeterminate before
 the first error

---
 src/CConfig.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 4443b0d..55b9ce2 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -7,6 +7,7 @@ namespace lce
 
 	CConfig::CConfig(void)
 	{
+		m_szErrMsg[0] = 0;
 	}
 
 	CConfig::~CConfig(void)
-- 
2.43.0


From 8888e9a7c1c3d1d29045e7c0948a2fd2f7adc817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:13 +0000
Subject: [PATCH 122/156] fix: ReplaceStr never returned when asked to replace
 an empty text

---
 include/StringHelper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index e340b72..8e4679b 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -26,6 +26,9 @@ namespace lce
 		string::size_type dwLen1 = sFind.size();
 		string::size_type dwLen2 = sReplace.size();
 
+		if (dwLen1 == 0)
+			return;
+
 		while ((pos = str.find(sFind, pos)) != string::npos)
 		{
 			str.replace(pos, dwLen1, sReplace);
-- 
2.43.0


From 3a89ed9ebb3c9387354389a45c011b4e25a53767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:13 +0000
Subject: [PATCH 123/156] fix: SplitStr left part of longer separators in the
 pieces and threw on an empty one

---
 include/StringHelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index 8e4679b..16c704f 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -53,10 +53,10 @@ namespace lce
 		size_t start = 0;
 		size_t end = 0;
 
-		while ((end = str.find(separator, start)) != string::npos)
+		while (!separator.empty() && (end = str.find(separator, start)) != string::npos)
 		{
 			result.push_back(str.substr(start, end - start));
-			start = end + 1;
+			start = end + separator.size();
 		}
 
 		result.push_back(str.substr(start));
-- 
2.43.0


From 0edf679bb97100c22835eef5f38af183bb0e3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:13 +0000
Subject: [PATCH 124/156] fix: SplitHostPort threw when the host replaced the
 source

---
 include/StringHelper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index 16c704f..d3a615d 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -41,8 +41,9 @@ namespace lce
 		size_t found = sSrc.find_first_of(splitter);
 		if (found != std::string::npos)
 		{
+			const std::string sPort = sSrc.substr(found + 1);
 			Host = sSrc.substr(0, found);
-			Port = sSrc.substr(found + 1);
+			Port = sPort;
 			return true;
 		}
 		return false;
-- 
2.43.0


From 0a4e5ee4baed2211cdf520793ef45f0f9b5cfb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:13 +0000
Subject: [PATCH 125/156] fix: GetGMTDate crashed on times that have no date

---
 src/Utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 0943c53..b954862 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -203,11 +203,13 @@ namespace lce
         char buf[256];
         struct tm stTm;
         struct tm *gt = gmtime_r(&cur, &stTm);
-        snprintf(buf, sizeof(buf), "%s, %02d %s %04d %02d:%02d:%02d GMT",
+        if (gt == NULL)
+            return "";
+        snprintf(buf, sizeof(buf), "%s, %02d %s %04ld %02d:%02d:%02d GMT",
                  days[gt->tm_wday],
                  gt->tm_mday,
                  months[gt->tm_mon],
-                 gt->tm_year + 1900,
+                 gt->tm_year + 1900L,
                  gt->tm_hour,
                  gt->tm_min,
                  gt->tm_sec);
-- 
2.43.0


From d82e94efc5286e4d23c78fdc4a2a43904be3cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 126/156] fix: Gmt2Time read behind the end of dates cut off
 behind the month

---
 src/Utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index b954862..9d52d54 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -342,6 +342,8 @@ namespace lce
         GC;
         if (c == ' ')
             GC;
+        if (!isdigit((unsigned char)c))
+            return BAD;
         if (day == -1)
         {
             day = c - '0';
-- 
2.43.0


From d6dbe385660a4a7e54b68e7b138aad8212e0b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 127/156] fix: CTcpConnector did not notice that a connect had
 completed at once

---
 src/CTcpConnector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 704beaf..066eccd 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -57,6 +57,7 @@ namespace lce
 		{
 			flag &= ~O_NONBLOCK;
 			fcntl(m_iFd, F_SETFL, flag); // 设置阻塞
+			m_bConnect = true;
 			return true;
 		}
 
-- 
2.43.0


From 60e42fc461479a6a9ff5ba3ee413579528029741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 128/156] fix: CTcpConnector::write ended the process when the
 peer was gone

---
 src/CTcpConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 066eccd..617de52 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -132,7 +132,7 @@ namespace lce
 		setsockopt(m_iFd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
 
 		int iSendLen = -1;
-		iSendLen = ::send(m_iFd, pData, iSize, 0);
+		iSendLen = ::send(m_iFd, pData, iSize, MSG_NOSIGNAL);
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Write: send error:%s.", strerror(errno));
-- 
2.43.0


From d693dbb2e0f37d0c60b30fd68ac7ba251d3a183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 129/156] fix: CTcpConnector::write used indeterminate values
 when never connected and ignored a failed reconnect

---
 include/CTcpConnector.h |  3 ++-
 src/CTcpConnector.cpp   | 10 +++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/CTcpConnector.h b/include/CTcpConnector.h
index 64d8ffd..4873964 100644
--- a/include/CTcpConnector.h
+++ b/include/CTcpConnector.h
@@ -10,8 +10,9 @@ namespace lce
 	{
 	public:
 		CTcpConnector()
-			: m_iFd(-1), m_bConnect(false)
+			: m_iFd(-1), m_bConnect(false), m_wSvrPort(0), m_dwTimeout(0)
 		{
+			m_szErrMsg[0] = 0;
 		}
 		~CTcpConnector()
 		{
diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 617de52..784f4bc 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -123,7 +123,15 @@ namespace lce
 	{
 		if (!m_bConnect)
 		{
-			_imp_connect();
+			if (m_sSvrIp.empty())
+			{
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "no create Connect.");
+				return -1;
+			}
+			if (!_imp_connect())
+			{
+				return -1;
+			}
 		}
 
 		struct timeval tv;
-- 
2.43.0


From d6883ba1e8a804c9afb242a5afeb04df9d94e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 130/156] fix: CTcpConnector wrote outside its descriptor sets
 for descriptors from 1024 on

---
 src/CTcpConnector.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 784f4bc..aec38f0 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -8,6 +8,8 @@
 #include <stdio.h>
 #include <fcntl.h>
 #include <unistd.h>
+#include <poll.h>
+#include <limits.h>
 
 namespace lce
 {
@@ -69,21 +71,16 @@ namespace lce
 		}
 		else
 		{
-			struct timeval tv;
-
-			tv.tv_sec = m_dwTimeout / 1000;
-			tv.tv_usec = (m_dwTimeout % 1000) * 1000;
-
-			fd_set set, rset;
-			FD_ZERO(&set);
-			FD_ZERO(&rset);
-			FD_SET(m_iFd, &set);
-			FD_SET(m_iFd, &rset);
-			ret = select(m_iFd + 1, &rset, &set, NULL, &tv);
+			// select would write outside its sets for descriptors from FD_SETSIZE on
+			struct pollfd stPoll;
+			stPoll.fd = m_iFd;
+			stPoll.events = POLLIN | POLLOUT;
+			stPoll.revents = 0;
+			ret = poll(&stPoll, 1, m_dwTimeout < 0 ? 0 : m_dwTimeout > INT_MAX ? INT_MAX : (int)m_dwTimeout);
 
 			if (ret < 0)
 			{
-				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:select error(%d):%s.", errno, strerror(errno));
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:poll error(%d):%s.", errno, strerror(errno));
 				close();
 				return false;
 			}
-- 
2.43.0


From 14111b6db51dcab6682b6dfff8912853b0c1886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 131/156] fix: CCommMgr::writeTo through a TCP server ended the
 process

---
 src/CCommMgr.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 19391f9..fbaf2bd 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -790,6 +790,13 @@ namespace lce
             return -1;
         }
 
+        if (pstServerInfo->iType != SRV_UDP)
+        {
+            // writing to an unconnected stream socket raises SIGPIPE
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,server type error", __FILE__, __LINE__);
+            return -1;
+        }
+
         if (lce::SendTo(pstServerInfo->iFd, pszData, iSize, sIp, wPort) == -1)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, strerror(errno));
-- 
2.43.0


From d3a7407375085070e1f9f2c423d5ac9bc6892cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 132/156] fix: CUdpConnector crashed on hosts without a private
 address

---
 src/CUdpConnector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 6b85fac..e77ca50 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -67,7 +67,8 @@ namespace lce
 		sockClentAddr.sin_family = AF_INET;
 		if (sLocalIp.empty())
 		{
-			sockClentAddr.sin_addr.s_addr = inet_addr(getLocalIp());
+			const char *pszLocalIp = getLocalIp();
+			sockClentAddr.sin_addr.s_addr = pszLocalIp == NULL ? htonl(INADDR_ANY) : inet_addr(pszLocalIp);
 		}
 		else
 		{
-- 
2.43.0


From d3fa705de12adf0e89af4acc4b25387b99372914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 133/156] fix: connecting a CUdpConnector again leaked its
 descriptor

---
 src/CUdpConnector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index e77ca50..3e255c6 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -53,6 +53,11 @@ namespace lce
 		m_sSvrIp = sSvrIp;
 		m_wSvrPort = wSvrPort;
 
+		if (m_iFd != INVALID_SOCKET)
+		{
+			close();
+		}
+
 		if ((m_iFd = socket(AF_INET, SOCK_DGRAM, 0)) == INVALID_SOCKET)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect: socket error(%d):%s.", errno, strerror(errno));
-- 
2.43.0


From 192dc55fd49d3a9ee414d627f53bf56a84099967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 134/156] fix: CUdpConnector reported a failed write as 0 bytes
 written

---
 src/CUdpConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 3e255c6..f3ed4fd 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -111,7 +111,7 @@ namespace lce
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "sendto error:%s", strerror(errno));
-			return false;
+			return -1;
 		}
 
 		return iSendLen;
-- 
2.43.0


From e0790cbdd1cbc95c4efa19ed7439db206cb64e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 135/156] fix: two CUdpConnectors could be given the same local
 port

---
 src/CUdpConnector.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index f3ed4fd..31150cb 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -64,8 +64,12 @@ namespace lce
 			return false;
 		}
 
-		int reuse = 1;
-		setsockopt(m_iFd, SOL_SOCKET, SO_REUSEADDR, (const char *)&reuse, sizeof(int));
+		if (wLocalIp != 0)
+		{
+			// with a port the system chooses it would permit two connectors to get the same one
+			int reuse = 1;
+			setsockopt(m_iFd, SOL_SOCKET, SO_REUSEADDR, (const char *)&reuse, sizeof(int));
+		}
 
 		struct sockaddr_in sockClentAddr;
 		memset(&sockClentAddr, 0, sizeof(sockaddr_in)); /* zero out */
-- 
2.43.0


From bf6fdbf1da93a14844930a92dd6f6e924f1b7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 136/156] fix: CUdpConnector returned an uninitialised error
 message

---
 include/CUdpConnector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CUdpConnector.h b/include/CUdpConnector.h
index 3147f1c..fb03ff6 100644
--- a/include/CUdpConnector.h
+++ b/include/CUdpConnector.h
@@ -12,8 +12,9 @@ namespace lce
 	{
 	public:
 		CUdpConnector()
-			: m_iFd(-1), m_bConnect(false)
+			: m_iFd(-1), m_bConnect(false), m_wSvrPort(0)
 		{
+			m_szErrMsg[0] = 0;
 		}
 		~CUdpConnector()
 		{
-- 
2.43.0


From 64c7299fec41649b9fba618900cf60ead40b5545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 137/156] fix: CUdpConnectors of several threads shared the
 buffer of the local address

---
 src/CUdpConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 31150cb..8336f37 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -16,7 +16,7 @@ namespace lce
 
 	const char *CUdpConnector::getLocalIp()
 	{
-		static char ip[20] = {0};
+		static thread_local char ip[20] = {0};
 		int i;
 		int s = socket(AF_INET, SOCK_DGRAM, 0);
 
-- 
2.43.0


From 5ecdf1ae767aa846ec6e04e0029609451fafd4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 138/156] fix: assigning a MySqlData to itself used its data
 after releasing it

---
 src/CMysql.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index ca3f86a..018d331 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -88,10 +88,10 @@ namespace lce
 
     void MySqlData::operator=(const MySqlData &right)
     {
+        right._data->RefAdd(); // first, both may be the same
         if (_data)
             _data->RefSub();
         _data = right._data;
-        _data->RefAdd();
     }
 
     MySqlData::MySqlData(MySqlBasicData *data)
-- 
2.43.0


From d7c53e661a75c4d1c8191ad17600a580c2bcb3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 139/156] fix: CMySql used a connection which is closed or
 never was opened

---
 src/CMysql.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 018d331..72ae44b 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -222,6 +222,9 @@ namespace lce
 
     MySqlData CMySql::query(const string &sql) throw(mysql_exception)
     {
+        if (!_bIsConn)
+            Select();
+
         if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
         {
             string err(mysql_error(_Mysql) + string(":") + sql);
@@ -324,6 +327,9 @@ namespace lce
 
     void CMySql::Connect()
     {
+        if (_Mysql == NULL)
+            throw mysql_exception("CMySql::Connect: not initialized");
+
         mysql_init(_Mysql);
 
         if (_Mysql != NULL)
-- 
2.43.0


From df6e957ee4c1dcd96a15d037055166b5867de48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 140/156] fix: CMySql could not repeat a query after a lost
 connection when no database was chosen

---
 src/CMysql.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 72ae44b..fdddbe8 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -233,7 +233,7 @@ namespace lce
             if (ret_errno == 2013 || ret_errno == 2006)
             {
                 Connect();
-                if (mysql_select_db(_Mysql, _dbname.c_str()))
+                if (!_dbname.empty() && mysql_select_db(_Mysql, _dbname.c_str()))
                     throw mysql_exception(string("CMySql::query: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
                 if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
                     throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
-- 
2.43.0


From 5c7bcb925ae49ad1b6324927045c35dc2c48f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 141/156] fix: CMySql cut the number of affected rows to an int

---
 src/CMysql.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index fdddbe8..5849c05 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -247,9 +247,9 @@ namespace lce
         MySqlBasicData *data = new MySqlBasicData();
         if (mysql_field_count(_Mysql) == 0)
         {
-            int inum = mysql_affected_rows(_Mysql);
+            my_ulonglong inum = mysql_affected_rows(_Mysql);
             string err(sql);
-            if (inum < 0)
+            if (inum == (my_ulonglong)-1)
             {
                 delete data;
                 throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
-- 
2.43.0


From 23860282797502a131a89b916f2bec88518deeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 142/156] fix: CMySql chose a database through the connection
 it had just closed

---
 src/CMysql.cpp | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 5849c05..055ed14 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -203,21 +203,7 @@ namespace lce
         _charSet = cs;
         Connect();
 
-        if (_dbname.empty())
-            return;
-
-        if (mysql_select_db(_Mysql, _dbname.c_str()))
-        {
-            int ret_errno = mysql_errno(_Mysql);
-            Close();
-            if (ret_errno == 2013 || ret_errno == 2006)
-            {
-                Connect();
-            }
-
-            if (mysql_select_db(_Mysql, _dbname.c_str()))
-                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
-        }
+        Select();
     }
 
     MySqlData CMySql::query(const string &sql) throw(mysql_exception)
@@ -374,13 +360,13 @@ namespace lce
 
         if (mysql_select_db(_Mysql, _dbname.c_str()))
         {
+            string err(mysql_error(_Mysql));
             int ret_errno = mysql_errno(_Mysql);
             Close();
-            if (ret_errno == 2013 || ret_errno == 2006)
-            {
-                Connect();
-            }
+            if (ret_errno != 2013 && ret_errno != 2006)
+                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + err);
 
+            Connect();
             if (mysql_select_db(_Mysql, _dbname.c_str()))
                 throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
         }
-- 
2.43.0


From 9422e24dd41f5946dc40349c7650da766ff171f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 143/156] fix: CMySql leaked the resources of a connection
 which could not be opened

---
 src/CMysql.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 055ed14..df304ac 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -332,12 +332,18 @@ namespace lce
         {
             if (mysql_options(_Mysql, MYSQL_SET_CHARSET_NAME, _charSet.c_str()))
             {
-                throw mysql_exception(string("CMySql::Connect: mysql_options MYSQL_SET_CHARSET_NAME ") + _charSet + ":" + mysql_error(_Mysql));
+                string err(mysql_error(_Mysql));
+                mysql_close(_Mysql);
+                throw mysql_exception(string("CMySql::Connect: mysql_options MYSQL_SET_CHARSET_NAME ") + _charSet + ":" + err);
             }
         }
 
         if (mysql_real_connect(_Mysql, _host.c_str(), _user.c_str(), _pass.c_str(), NULL, _port, NULL, CLIENT_MULTI_STATEMENTS) == NULL)
-            throw mysql_exception(string("CMySql::Connect: mysql_real_connect to ") + _host + ":" + mysql_error(_Mysql));
+        {
+            string err(mysql_error(_Mysql));
+            mysql_close(_Mysql);
+            throw mysql_exception(string("CMySql::Connect: mysql_real_connect to ") + _host + ":" + err);
+        }
 
         _bIsConn = true;
     }
-- 
2.43.0


From 9c2abfee2f301258e85f46f4d2b6abe9e57733d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 144/156] fix: after a query of several statements CMySql could
 not send anything else

---
 include/CMysql.h |  1 +
 src/CMysql.cpp   | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/include/CMysql.h b/include/CMysql.h
index 44a4b55..0356bbe 100755
--- a/include/CMysql.h
+++ b/include/CMysql.h
@@ -69,6 +69,7 @@ namespace lce
         void Connect();
         void Close();
         void Select();
+        int DropResults();
 
     protected:
         MYSQL *_Mysql;
diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index df304ac..c7f65a7 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -241,6 +241,11 @@ namespace lce
                 throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
             }
             data->affected_rows(inum);
+            if (DropResults() > 0)
+            {
+                delete data;
+                throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
+            }
             return MySqlData(data);
         }
         MYSQL_RES *pstMySqlRes = mysql_store_result(_Mysql);
@@ -271,6 +276,7 @@ namespace lce
         {
             delete data;
             mysql_free_result(pstMySqlRes);
+            DropResults();
             throw mysql_exception(string("CMySql::query: catch mysql_exception:") + e.what());
         }
 
@@ -303,11 +309,18 @@ namespace lce
         {
             delete data;
             mysql_free_result(pstMySqlRes);
+            DropResults();
             throw mysql_exception(string("CMySql::query: catch mysql_exception: ") + e.what());
         }
         data->genrows();
         mysql_free_result(pstMySqlRes);
 
+        if (DropResults() > 0)
+        {
+            delete data;
+            throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + sql);
+        }
+
         return MySqlData(data);
     }
 
@@ -348,6 +361,19 @@ namespace lce
         _bIsConn = true;
     }
 
+    // results of further statements of a query, nothing else can be sent before they are fetched
+    int CMySql::DropResults()
+    {
+        int ret;
+        while ((ret = mysql_next_result(_Mysql)) == 0)
+        {
+            MYSQL_RES *pstMySqlRes = mysql_store_result(_Mysql);
+            if (pstMySqlRes != NULL)
+                mysql_free_result(pstMySqlRes);
+        }
+        return ret;
+    }
+
     void CMySql::Close()
     {
         if (!_bIsConn)
-- 
2.43.0


From 05ae8fed181bb09461c50f527ab4f689e09c5511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 145/156] fix: CMySql lost the chosen database when it
 connected again for escaping

---
 src/CMysql.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index c7f65a7..03f1d9f 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -407,7 +407,7 @@ namespace lce
     std::string CMySql::escape_string(const char *s, size_t length)
     {
         if (!_bIsConn)
-            Connect();
+            Select();
 
         char *p = new char[length * 2 + 1];
         char *pp = p;
-- 
2.43.0


From 7d8a244e388eab85fe62c09a3b3bfdf81c1f2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:50 +0000
Subject: [PATCH 146/156] fix: removing a service inside its connect or limit
 notification went on with freed memory

---
 src/CCommMgr.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index fbaf2bd..69be971 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -432,7 +432,9 @@ namespace lce
         if (pstServerInfo == NULL)
             return;
 
-        while (true)
+        const int iSrvId = pstServerInfo->iSrvId;
+
+        while (m_vecServers[iSrvId] == pstServerInfo) // until a handler removes the server
         {
             struct sockaddr_in stClientAddr;
             int iAddrLen = sizeof(struct sockaddr_in);
@@ -440,7 +442,7 @@ namespace lce
             int iClientSock = accept(iFd, (struct sockaddr *)&stClientAddr, (socklen_t *)&iAddrLen);
 
             StSession stSession;
-            stSession.iSvrId = pstServerInfo->iSrvId;
+            stSession.iSvrId = iSrvId;
 
             if (iClientSock < 0)
             {
-- 
2.43.0


From 41ec87206354faf8d5b93196466c004ceba61da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:50 +0000
Subject: [PATCH 147/156] fix: a UDP service could be created on a text that is
 no address

---
 src/Utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 9d52d54..0f71222 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -89,6 +89,11 @@ namespace lce
         my_addr.sin_port = htons(wPort);
         my_addr.sin_addr.s_addr = inet_addr(sHost.c_str());
         memset(&(my_addr.sin_zero), 0, 8);
+        if (my_addr.sin_addr.s_addr == INADDR_NONE)
+        {
+            errno = EINVAL; // no address
+            return -1;
+        }
         if (::bind(iFd, (struct sockaddr *)&my_addr, sizeof(struct sockaddr)) == -1)
         {
             return -1;
-- 
2.43.0


From ea5b41fef2a6afd7b1d38e4e9b52181876ced025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:50 +0000
Subject: [PATCH 148/156] fix: configuring a service again leaked its package
 filter

---
 src/CCommMgr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 69be971..de4666d 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -153,6 +153,9 @@ namespace lce
 
         pstServerInfo->pProcessor = pProcessor;
 
+        if (pstServerInfo->iPkgType != PKG_EXT)
+            delete pstServerInfo->pPackageFilter; // of an earlier call
+
         switch (iPkgType)
         {
         case PKG_RAW:
@@ -204,6 +207,9 @@ namespace lce
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,iSrvId error", __FILE__, __LINE__);
             return -1;
         }
+        if (pstServerInfo->iPkgType != PKG_EXT)
+            delete pstServerInfo->pPackageFilter;
+
         pstServerInfo->iPkgType = PKG_EXT;
         pstServerInfo->pPackageFilter = pPkgFilter;
         return 0;
-- 
2.43.0


From 9e01ce7c1d28d51197beebff66e6642320c75ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 149/156] fix: registering a signal raced with handlers already
 running and reported success for signals that cannot be handled

---
 include/CCommMgr.h |  9 +++++++--
 src/CCommMgr.cpp   | 21 ++++++++++++++++-----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/CCommMgr.h b/include/CCommMgr.h
index ec9e23a..fdd795b 100755
--- a/include/CCommMgr.h
+++ b/include/CCommMgr.h
@@ -5,6 +5,7 @@
 #include <vector>
 #include <iostream>
 #include <memory>
+#include <atomic>
 #include <functional>
 #include "Utils.h"
 #include "CSocketBuf.h"
@@ -97,14 +98,18 @@ namespace lce
         inline bool isClose(int iFd);
         inline bool isClose(const StSession &stSession);
 
-        CCommMgr() : m_ddwConnId(0) {}
+        CCommMgr() : m_ddwConnId(0)
+        {
+            for (int i = 0; i < NSIG; i++)
+                m_arrSigProcs[i] = NULL;
+        }
         CCommMgr &operator=(const CCommMgr &);
         CCommMgr(const CCommMgr &);
 
     private:
         vector<StServerInfo *> m_vecServers;
         vector<StClientInfo> m_vecClients;
-        map<int, CProcessor *> m_mapSigProcs;
+        std::atomic<CProcessor *> m_arrSigProcs[NSIG]; // read inside signal handlers
         CEvent m_oCEvent;
         char m_szErrMsg[1024];
         static CCommMgr *m_pInstance;
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index de4666d..e60d082 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -997,18 +997,29 @@ namespace lce
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, "processor pointor is null");
             return -1;
         }
-        m_mapSigProcs[iSignal] = pProcessor;
+        if (iSignal <= 0 || iSignal >= NSIG)
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,signal %d error", __FILE__, __LINE__, iSignal);
+            return -1;
+        }
+
+        CProcessor *pOldProcessor = m_arrSigProcs[iSignal].exchange(pProcessor);
 
-        signal(iSignal, CCommMgr::onSignal);
+        if (signal(iSignal, CCommMgr::onSignal) == SIG_ERR)
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, strerror(errno));
+            m_arrSigProcs[iSignal] = pOldProcessor;
+            return -1;
+        }
         return 0;
     }
 
     void CCommMgr::onSignal(int iSignal)
     {
-        map<int, CProcessor *>::iterator it = CCommMgr::getInstance().m_mapSigProcs.find(iSignal);
-        if (it != CCommMgr::getInstance().m_mapSigProcs.end())
+        CProcessor *pProcessor = CCommMgr::getInstance().m_arrSigProcs[iSignal];
+        if (pProcessor != NULL)
         {
-            it->second->onSignal(iSignal);
+            pProcessor->onSignal(iSignal);
         }
     }
 
-- 
2.43.0


From 294ad811cdfff01a5b7877c973b07361ecf2bcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 150/156] fix: a signal handler changed errno under the code it
 interrupted, which dropped healthy connections

---
 src/CCommMgr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index e60d082..93655df 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -1016,11 +1016,13 @@ namespace lce
 
     void CCommMgr::onSignal(int iSignal)
     {
+        int iErrno = errno; // of the interrupted code
         CProcessor *pProcessor = CCommMgr::getInstance().m_arrSigProcs[iSignal];
         if (pProcessor != NULL)
         {
             pProcessor->onSignal(iSignal);
         }
+        errno = iErrno;
     }
 
     int CCommMgr::sendMessage(int iMsgType, CProcessor *pProcessor, void *pData)
-- 
2.43.0


From f7e20f3d36c0f87e2c3f26d0878f56651602ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:12 +0000
Subject: [PATCH 151/156] fix: becoming a daemon wrote buffered output several
 times, ran exit handlers and reported success when fork failed

---
 src/Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 0f71222..f6a9907 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -128,7 +128,7 @@ namespace lce
     {
         pid_t pid;
         if ((pid = fork()) != 0)
-            exit(0);
+            _exit(pid > 0 ? 0 : 1); // the exit handlers and buffered output belong to the daemon
 
         setsid();
 
@@ -149,7 +149,7 @@ namespace lce
         sigaction(SIGPIPE, &sig, NULL);
 
         if ((pid = fork()) != 0)
-            exit(0);
+            _exit(pid > 0 ? 0 : 1); // the exit handlers and buffered output belong to the daemon
     }
 
     bool SetFileLimit(const size_t dwLimit)
-- 
2.43.0


From 2ee30cbcb369631c83dc6b34925689c98bbd8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:12 +0000
Subject: [PATCH 152/156] fix: raising the file or core limit lowered the hard
 limit for good

---
 src/Utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index f6a9907..4748e50 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -162,7 +162,8 @@ namespace lce
             if (rlim.rlim_cur < dwLimit)
             {
                 rlim.rlim_cur = dwLimit;
-                rlim.rlim_max = dwLimit;
+                if (rlim.rlim_max < dwLimit)
+                    rlim.rlim_max = dwLimit;
                 if (setrlimit((__rlimit_resource_t)RLIMIT_OFILE, &rlim) == 0)
                 {
                     bOK = true;
@@ -186,7 +187,8 @@ namespace lce
             if (rlim.rlim_cur < dwLimit)
             {
                 rlim.rlim_cur = dwLimit;
-                rlim.rlim_max = dwLimit;
+                if (rlim.rlim_max < dwLimit)
+                    rlim.rlim_max = dwLimit;
                 if (setrlimit((__rlimit_resource_t)RLIMIT_CORE, &rlim) == 0)
                 {
                     bOK = true;
-- 
2.43.0


From c5eb3b92457c8d5014541b804d64b1bd9eee1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:19 +0000
Subject: [PATCH 153/156] fix: CMySql::query reports a connection lost while it
 fetches the results of later statements

---
 src/CMysql.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 03f1d9f..9d8f7ab 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -370,8 +370,10 @@ namespace lce
             MYSQL_RES *pstMySqlRes = mysql_store_result(_Mysql);
             if (pstMySqlRes != NULL)
                 mysql_free_result(pstMySqlRes);
+            else if (mysql_errno(_Mysql) != 0)
+                return 1; // lost in the middle of it
         }
-        return ret;
+        return mysql_errno(_Mysql) != 0 ? 1 : ret; // a loss may look like the end
     }
 
     void CMySql::Close()
-- 
2.43.0


From c7c8fefe7806a3cf98d97aef5b84e0bcdc65c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:15 +0000
Subject: [PATCH 154/156] fix: CPackage::setPkgBody left the read cursor
 outside a shorter body, later reads went past the package

---
 include/CPackage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CPackage.h b/include/CPackage.h
index 9b101d9..cc39d88 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -683,10 +683,12 @@ namespace lce
 		void setPkgBody(const unsigned char *pszBody, const int iBodyLen)
 		{
 			m_pkgData.replace(sizeof(PKG_HEAD), std::string::npos, reinterpret_cast<const char *>(pszBody), iBodyLen);
+			m_iPos = 0;
 		}
 		void setPkgBody(const char *pszBody, const int iBodyLen)
 		{
 			m_pkgData.replace(sizeof(PKG_HEAD), std::string::npos, pszBody, iBodyLen);
+			m_iPos = 0;
 		}
 
 		// 设置包头
-- 
2.43.0


From 6106390458e0097c93eac68bbef760883f493459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:15 +0000
Subject: [PATCH 155/156] fix: a connect was reported as made when the
 connection that had its descriptor before ended with output waiting

---
 src/CEvent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 48a17fa..5f1b9e1 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -375,7 +375,8 @@ namespace lce
                             stFdEvent.onRead(iFd, stFdEvent.pClientRData);
                     }
                 }
-                if (m_stEPollState.stEvents[i].events & EPOLLOUT)
+                // the descriptor may serve another connection since the read handler
+                if ((m_stEPollState.stEvents[i].events & EPOLLOUT) && m_stEPollState.stEvents[i].data.u64 == makeEventData(iFd))
                 {
 
                     StFdEvent &stFdEvent = m_stFdEvents[iFd];
-- 
2.43.0


From 8fcfeafcb75bf81a3b2fa10e2f796885f6b283ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:15 +0000
Subject: [PATCH 156/156] fix: the time timer handlers took was added to what
 the next timer had still to wait

---
 src/CEvent.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 5f1b9e1..6d69317 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -324,8 +324,8 @@ namespace lce
                     }
                     else
                     {
-                        if (it != m_setStTimeEvents.end() && (it->ddwMillSecs - ddwTimeNow) > 0)
-                            ddwExpire = it->ddwMillSecs - ddwTimeNow;
+                        ddwTimeNow = CEvent::getMillSecsNow(); // the handlers took time
+                        ddwExpire = it->ddwMillSecs > ddwTimeNow ? it->ddwMillSecs - ddwTimeNow : 0;
                         break;
                     }
                 }
-- 
2.43.0

