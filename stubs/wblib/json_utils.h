#pragma once
#include <chrono>
#include <memory>
#include <string>
#include <optional>
#include <vector>
#include <functional>
#include "json/json.h"
#include "exceptions.h"
namespace WBMQTT
{
    namespace JSON
    {
        class TBadJsonTypeException: public TBaseException
        {
        public:
            using TBaseException::TBaseException;
        };
        inline Json::Value Parse(std::istream& s)
        {
            Json::Value v;
            Json::String e;
            if (!Json::parseFromStream(Json::CharReaderBuilder(), s, &v, &e))
                throw std::runtime_error("Failed to parse JSON: " + e);
            return v;
        }
        inline Json::Value Parse(const std::string& fileName)
        {
            std::ifstream f(fileName);
            if (!f.is_open())
                throw std::runtime_error("Can't open file: " + fileName);
            try {
                return Parse(f);
            } catch (const std::exception& e) {
                throw std::runtime_error("Failed to parse JSON " + fileName + ": " + e.what());
            }
        }
        inline Json::Value ParseWithSettings(const std::string& fileName, const Json::Value&)
        {
            return Parse(fileName);
        }
        // JSON Schema validation is not modelled: every document is accepted
        class TValidator
        {
        public:
            TValidator(const Json::Value&)
            {}
            void Validate(const Json::Value&) const
            {}
        };
        inline void Validate(const Json::Value&, const Json::Value&)
        {}
        template<class T> bool Is(const Json::Value& v);
        template<class T> T As(const Json::Value& v);
        template<> inline bool Is<bool>(const Json::Value& v)
        {
            return v.isBool();
        }
        template<> inline bool As<bool>(const Json::Value& v)
        {
            return v.asBool();
        }
        template<> inline bool Is<int>(const Json::Value& v)
        {
            return v.isInt();
        }
        template<> inline int As<int>(const Json::Value& v)
        {
            return v.asInt();
        }
        template<> inline bool Is<uint32_t>(const Json::Value& v)
        {
            return v.isUInt();
        }
        template<> inline uint32_t As<uint32_t>(const Json::Value& v)
        {
            return v.asUInt();
        }
        template<> inline bool Is<uint64_t>(const Json::Value& v)
        {
            return v.isUInt64();
        }
        template<> inline uint64_t As<uint64_t>(const Json::Value& v)
        {
            return v.asUInt64();
        }
        template<> inline bool Is<int64_t>(const Json::Value& v)
        {
            return v.isInt64();
        }
        template<> inline int64_t As<int64_t>(const Json::Value& v)
        {
            return v.asInt64();
        }
        template<> inline bool Is<double>(const Json::Value& v)
        {
            return v.isDouble();
        }
        template<> inline double As<double>(const Json::Value& v)
        {
            return v.asDouble();
        }
        template<> inline bool Is<std::string>(const Json::Value& v)
        {
            return v.isString();
        }
        template<> inline std::string As<std::string>(const Json::Value& v)
        {
            return v.asString();
        }
        template<> inline bool Is<std::chrono::milliseconds>(const Json::Value& v)
        {
            return v.isInt();
        }
        template<> inline std::chrono::milliseconds As<std::chrono::milliseconds>(const Json::Value& v)
        {
            return std::chrono::milliseconds(v.asInt());
        }
        template<> inline bool Is<std::chrono::microseconds>(const Json::Value& v)
        {
            return v.isInt();
        }
        template<> inline std::chrono::microseconds As<std::chrono::microseconds>(const Json::Value& v)
        {
            return std::chrono::microseconds(v.asInt());
        }
        template<> inline bool Is<std::chrono::seconds>(const Json::Value& v)
        {
            return v.isInt();
        }
        template<> inline std::chrono::seconds As<std::chrono::seconds>(const Json::Value& v)
        {
            return std::chrono::seconds(v.asInt());
        }
        template<class T> bool Get(const Json::Value& root, const std::string& key, T& value)
        {
            if (!root.isMember(key))
                return false;
            const Json::Value& v = root[key];
            if (!Is<T>(v))
                throw TBadJsonTypeException(__FILE__, __LINE__, key + " is not of the expected type");
            value = As<T>(v);
            return true;
        }
    }
}
