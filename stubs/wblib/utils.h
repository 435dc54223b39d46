#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <thread>
#include <vector>
#include <algorithm>
#include <sstream>
#include <iomanip>
#include <mutex>
#include <condition_variable>
#include <cstring>
#include "exceptions.h"
namespace WBMQTT
{
    inline std::string StringFormat(const char* fmt, ...)
    {
        va_list a, b;
        va_start(a, fmt);
        va_copy(b, a);
        int n = vsnprintf(nullptr, 0, fmt, a);
        va_end(a);
        std::string r(n, 0);
        vsnprintf(&r[0], n + 1, fmt, b);
        va_end(b);
        return r;
    }
    inline std::string StringFormat(const std::string fmt, ...)
    {
        va_list a, b;
        va_start(a, fmt);
        va_copy(b, a);
        int n = vsnprintf(nullptr, 0, fmt.c_str(), a);
        va_end(a);
        std::string r(n, 0);
        vsnprintf(&r[0], n + 1, fmt.c_str(), b);
        va_end(b);
        return r;
    }
    inline std::string HexDump(const uint8_t* buf, size_t n)
    {
        std::ostringstream ss;
        for (size_t i = 0; i < n; ++i) {
            if (i)
                ss << " ";
            ss << std::hex << std::setw(2) << std::setfill('0') << int(buf[i]);
        }
        return ss.str();
    }
    inline std::string HexDump(const std::vector<uint8_t>& v)
    {
        return HexDump(v.data(), v.size());
    }
    inline bool StringStartsWith(const std::string& s, const std::string& p)
    {
        return s.size() >= p.size() && s.compare(0, p.size(), p) == 0;
    }
    inline bool StringHasSuffix(const std::string& s, const std::string& p)
    {
        return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
    }
    inline std::vector<std::string> StringSplit(const std::string& s, char d)
    {
        std::vector<std::string> r;
        std::stringstream ss(s);
        std::string item;
        while (std::getline(ss, item, d))
            r.push_back(item);
        return r;
    }
    inline std::vector<std::string> StringSplit(const std::string& s, const std::string& d)
    {
        std::vector<std::string> r;
        size_t pos = 0;
        for (;;) {
            size_t e = s.find(d, pos);
            r.push_back(s.substr(pos, e == std::string::npos ? e : e - pos));
            if (e == std::string::npos)
                return r;
            pos = e + d.size();
        }
    }
    inline std::string StringTrim(const std::string& s)
    {
        auto b = s.find_first_not_of(" \t\r\n");
        if (b == std::string::npos)
            return "";
        auto e = s.find_last_not_of(" \t\r\n");
        return s.substr(b, e - b + 1);
    }
    inline void SetThreadName(const std::string&)
    {}
}
