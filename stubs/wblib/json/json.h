// Minimal stand-in for the part of jsoncpp that wb-mqtt-serial uses (jsoncpp is not installed here).
// Objects are ordered by key, as in jsoncpp.
#pragma once
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <initializer_list>
#include <istream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <algorithm>

namespace Json
{
    typedef std::string String;
    typedef int Int;
    typedef unsigned int UInt;
    typedef int64_t Int64;
    typedef uint64_t UInt64;
    typedef int64_t LargestInt;
    typedef uint64_t LargestUInt;
    typedef unsigned int ArrayIndex;
    using IStream = std::istream;
    using OStream = std::ostream;

    class Exception: public std::exception
    {
        std::string Msg;

    public:
        Exception(std::string m): Msg(std::move(m))
        {}
        const char* what() const noexcept override
        {
            return Msg.c_str();
        }
    };
    class RuntimeError: public Exception
    {
    public:
        using Exception::Exception;
    };
    class LogicError: public Exception
    {
    public:
        using Exception::Exception;
    };

    enum ValueType
    {
        nullValue = 0,
        intValue,
        uintValue,
        realValue,
        stringValue,
        booleanValue,
        arrayValue,
        objectValue
    };

    enum CommentPlacement
    {
        commentBefore = 0,
        commentAfterOnSameLine,
        commentAfter
    };

    class Value;

    template<class V, class MapIt, class VecIt> class IterBase
    {
    public:
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = Value;
        using difference_type = int;
        using reference = V&;
        using pointer = V*;
        bool IsMap = false;
        MapIt M{};
        VecIt A{};
        VecIt Begin{};
        IterBase() = default;
        IterBase(MapIt m): IsMap(true), M(m)
        {}
        IterBase(VecIt a, VecIt b): IsMap(false), A(a), Begin(b)
        {}
        template<class V2, class M2, class A2>
        IterBase(const IterBase<V2, M2, A2>& o): IsMap(o.IsMap), M(o.M), A(o.A), Begin(o.Begin)
        {}
        reference operator*() const
        {
            return IsMap ? M->second : *A;
        }
        pointer operator->() const
        {
            return IsMap ? &M->second : &*A;
        }
        IterBase& operator++()
        {
            if (IsMap)
                ++M;
            else
                ++A;
            return *this;
        }
        IterBase operator++(int)
        {
            auto t = *this;
            ++*this;
            return t;
        }
        IterBase& operator--()
        {
            if (IsMap)
                --M;
            else
                --A;
            return *this;
        }
        bool operator==(const IterBase& o) const
        {
            return IsMap == o.IsMap && (IsMap ? M == o.M : A == o.A);
        }
        bool operator!=(const IterBase& o) const
        {
            return !(*this == o);
        }
        std::string name() const
        {
            return IsMap ? M->first : std::string();
        }
        Value key() const;
        UInt index() const
        {
            return IsMap ? UInt(-1) : UInt(A - Begin);
        }
    };

    class Value
    {
    public:
        typedef std::vector<Value> Arr;
        typedef std::map<std::string, Value> Obj;
        typedef std::vector<std::string> Members;
        typedef Json::ArrayIndex ArrayIndex;
        typedef Json::Int Int;
        typedef Json::UInt UInt;
        typedef Json::Int64 Int64;
        typedef Json::UInt64 UInt64;
        typedef IterBase<Value, Obj::iterator, Arr::iterator> iterator;
        typedef IterBase<const Value, Obj::const_iterator, Arr::const_iterator> const_iterator;

    private:
        ValueType T = nullValue;
        int64_t I = 0;
        uint64_t U = 0;
        double D = 0;
        bool B = false;
        std::string S;
        std::shared_ptr<Arr> A;
        std::shared_ptr<Obj> O;
        void copyFrom(const Value& o);
        Arr& arr();
        Obj& obj();
        static std::string d2s(double v);

    public:
        Value(ValueType t = nullValue);
        Value(int v): T(intValue), I(v)
        {}
        Value(unsigned v): T(uintValue), U(v)
        {}
        Value(long v): T(intValue), I(v)
        {}
        Value(unsigned long v): T(uintValue), U(v)
        {}
        Value(long long v): T(intValue), I(v)
        {}
        Value(unsigned long long v): T(uintValue), U(v)
        {}
        Value(double v): T(realValue), D(v)
        {}
        Value(bool v): T(booleanValue), B(v)
        {}
        Value(const char* s): T(stringValue), S(s)
        {}
        Value(const std::string& s): T(stringValue), S(s)
        {}
        Value(const Value& o);
        Value(Value&& o) noexcept;
        Value& operator=(const Value& o);
        Value& operator=(Value&& o) noexcept;
        void swap(Value& o)
        {
            std::swap(*this, o);
        }
        static const Value& nullSingleton();

        ValueType type() const
        {
            return T;
        }
        bool isNull() const
        {
            return T == nullValue;
        }
        bool isBool() const
        {
            return T == booleanValue;
        }
        bool isString() const
        {
            return T == stringValue;
        }
        bool isArray() const
        {
            return T == arrayValue || T == nullValue ? T == arrayValue : false;
        }
        bool isObject() const
        {
            return T == objectValue;
        }
        bool isInt() const;
        bool isUInt() const;
        bool isInt64() const;
        bool isUInt64() const;
        bool isIntegral() const;
        bool isDouble() const
        {
            return T == intValue || T == uintValue || T == realValue;
        }
        bool isNumeric() const
        {
            return isDouble();
        }
        bool isConvertibleTo(ValueType t) const;
        explicit operator bool() const
        {
            return !isNull();
        }

        std::string asString() const;
        const char* asCString() const;
        Int asInt() const;
        UInt asUInt() const;
        int64_t asInt64() const;
        uint64_t asUInt64() const;
        int64_t asLargestInt() const
        {
            return asInt64();
        }
        double asDouble() const;
        float asFloat() const
        {
            return float(asDouble());
        }
        bool asBool() const;

        ArrayIndex size() const;
        bool empty() const;
        void clear();
        void resize(ArrayIndex n)
        {
            arr().resize(n);
        }
        Value& operator[](ArrayIndex i);
        Value& operator[](int i)
        {
            return (*this)[ArrayIndex(i)];
        }
        const Value& operator[](ArrayIndex i) const;
        const Value& operator[](int i) const
        {
            return (*this)[ArrayIndex(i)];
        }
        Value get(ArrayIndex i, const Value& d) const;
        bool isValidIndex(ArrayIndex i) const
        {
            return i < size();
        }
        Value& append(const Value& v);
        Value& append(Value&& v);
        Value& operator[](const char* k)
        {
            return (*this)[std::string(k)];
        }
        const Value& operator[](const char* k) const
        {
            return (*this)[std::string(k)];
        }
        Value& operator[](const std::string& k);
        const Value& operator[](const std::string& k) const;
        Value get(const char* k, const Value& d) const
        {
            return get(std::string(k), d);
        }
        Value get(const std::string& k, const Value& d) const;
        void removeMember(const char* k)
        {
            removeMember(std::string(k));
        }
        void removeMember(const std::string& k);
        bool removeMember(const std::string& k, Value* removed);
        bool removeIndex(ArrayIndex i, Value* removed);
        bool isMember(const char* k) const
        {
            return isMember(std::string(k));
        }
        bool isMember(const std::string& k) const;
        Members getMemberNames() const;
        bool operator<(const Value& o) const;
        bool operator==(const Value& o) const;
        bool operator!=(const Value& o) const
        {
            return !(*this == o);
        }
        int compare(const Value& o) const
        {
            return *this < o ? -1 : (o < *this ? 1 : 0);
        }
        std::string toStyledString() const;
        void setComment(const char*, CommentPlacement)
        {}
        void setComment(const std::string&, CommentPlacement)
        {}
        iterator begin();
        iterator end();
        const_iterator begin() const;
        const_iterator end() const;
    };

    typedef Value::iterator ValueIterator;
    typedef Value::const_iterator ValueConstIterator;

    template<class V, class M, class A> Value IterBase<V, M, A>::key() const
    {
        if (IsMap)
            return Value(this->M->first);
        return Value(index());
    }

    class CharReader
    {
    public:
        virtual ~CharReader() = default;
        virtual bool parse(const char* begin, const char* end, Value* root, String* errs);
    };
    class CharReaderBuilder
    {
    public:
        Value settings_;
        Value& operator[](const std::string& k)
        {
            return settings_[k];
        }
        CharReader* newCharReader() const
        {
            return new CharReader();
        }
        static void strictMode(Value*)
        {}
    };
    class StreamWriter
    {
    public:
        std::string Indent;
        virtual ~StreamWriter() = default;
        int write(const Value& root, std::ostream* s);
    };
    class StreamWriterBuilder
    {
    public:
        Value settings_;
        StreamWriterBuilder()
        {
            settings_["indentation"] = "\t";
        }
        Value& operator[](const std::string& k)
        {
            return settings_[k];
        }
        StreamWriter* newStreamWriter() const;
    };
    String writeString(const StreamWriterBuilder& b, const Value& v);
    bool parseFromStream(const CharReaderBuilder&, std::istream& s, Value* root, String* errs);
    std::ostream& operator<<(std::ostream& s, const Value& v);
    std::istream& operator>>(std::istream& s, Value& v);
}
