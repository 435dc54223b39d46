#include "wblib/json/json.h"
namespace Json
{
    void Value::copyFrom(const Value& o)
    {
        T = o.T;
        I = o.I;
        U = o.U;
        D = o.D;
        B = o.B;
        S = o.S;
        A = o.A ? std::make_shared<Arr>(*o.A) : nullptr;
        O = o.O ? std::make_shared<Obj>(*o.O) : nullptr;
    }
    Value::Value(ValueType t): T(t)
    {
        if (t == arrayValue)
            A = std::make_shared<Arr>();
        if (t == objectValue)
            O = std::make_shared<Obj>();
    }
    Value::Value(const Value& o)
    {
        copyFrom(o);
    }
    Value::Value(Value&& o) noexcept
        : T(o.T), I(o.I), U(o.U), D(o.D), B(o.B), S(std::move(o.S)), A(std::move(o.A)), O(std::move(o.O))
    {
        o.T = nullValue;
    }
    Value& Value::operator=(const Value& o)
    {
        if (this != &o) {
            Value t(o); // o may be a part of *this
            *this = std::move(t);
        }
        return *this;
    }
    Value& Value::operator=(Value&& o) noexcept
    {
        if (this != &o) {
            auto a = std::move(o.A);
            auto ob = std::move(o.O);
            std::string s = std::move(o.S);
            T = o.T;
            I = o.I;
            U = o.U;
            D = o.D;
            B = o.B;
            o.T = nullValue;
            S = std::move(s);
            A.swap(a);
            O.swap(ob);
        }
        return *this;
    }
    const Value& Value::nullSingleton()
    {
        static const Value v;
        return v;
    }
    Value::Arr& Value::arr()
    {
        if (T == nullValue)
            *this = Value(arrayValue);
        if (T != arrayValue)
            throw LogicError("requires arrayValue");
        return *A;
    }
    Value::Obj& Value::obj()
    {
        if (T == nullValue)
            *this = Value(objectValue);
        if (T != objectValue)
            throw LogicError("requires objectValue");
        return *O;
    }
    static bool IsInteger(double d)
    {
        double ip;
        return std::modf(d, &ip) == 0.0;
    }
    bool Value::isInt() const
    {
        switch (T) {
            case intValue:
                return I >= INT32_MIN && I <= INT32_MAX;
            case uintValue:
                return U <= uint64_t(INT32_MAX);
            case realValue:
                return D >= INT32_MIN && D <= INT32_MAX && IsInteger(D);
            default:
                return false;
        }
    }
    bool Value::isUInt() const
    {
        switch (T) {
            case intValue:
                return I >= 0 && uint64_t(I) <= UINT32_MAX;
            case uintValue:
                return U <= UINT32_MAX;
            case realValue:
                return D >= 0 && D <= UINT32_MAX && IsInteger(D);
            default:
                return false;
        }
    }
    bool Value::isInt64() const
    {
        switch (T) {
            case intValue:
                return true;
            case uintValue:
                return U <= uint64_t(INT64_MAX);
            case realValue:
                return D >= double(INT64_MIN) && D < double(INT64_MAX) && IsInteger(D);
            default:
                return false;
        }
    }
    bool Value::isUInt64() const
    {
        switch (T) {
            case intValue:
                return I >= 0;
            case uintValue:
                return true;
            case realValue:
                return D >= 0 && D < 18446744073709551616.0 && IsInteger(D);
            default:
                return false;
        }
    }
    bool Value::isIntegral() const
    {
        return isInt64() || isUInt64();
    }
    bool Value::isConvertibleTo(ValueType t) const
    {
        switch (t) {
            case nullValue:
                return (isNumeric() && asDouble() == 0.0) || (T == booleanValue && !B) ||
                       (T == stringValue && S.empty()) || ((T == arrayValue || T == objectValue) && empty()) ||
                       T == nullValue;
            case intValue:
                return isInt() || (T == realValue && D >= INT32_MIN && D <= INT32_MAX) || T == booleanValue ||
                       T == nullValue;
            case uintValue:
                return isUInt() || (T == realValue && D >= 0 && D <= UINT32_MAX) || T == booleanValue ||
                       T == nullValue;
            case realValue:
                return isNumeric() || T == booleanValue || T == nullValue;
            case booleanValue:
                return isNumeric() || T == booleanValue || T == nullValue;
            case stringValue:
                return isNumeric() || T == booleanValue || T == stringValue || T == nullValue;
            case arrayValue:
                return T == arrayValue || T == nullValue;
            case objectValue:
                return T == objectValue || T == nullValue;
        }
        return false;
    }
    std::string Value::d2s(double v)
    {
        if (!std::isfinite(v))
            return "null";
        char b[64];
        snprintf(b, sizeof b, "%.17g", v);
        std::string s(b);
        if (s.find_first_of(".eE") == std::string::npos)
            s += ".0";
        return s;
    }
    std::string Value::asString() const
    {
        switch (T) {
            case nullValue:
                return "";
            case stringValue:
                return S;
            case booleanValue:
                return B ? "true" : "false";
            case intValue:
                return std::to_string(I);
            case uintValue:
                return std::to_string(U);
            case realValue:
                return d2s(D);
            default:
                throw LogicError("Type is not convertible to string");
        }
    }
    const char* Value::asCString() const
    {
        if (T != stringValue)
            throw LogicError("in Json::Value::asCString(): requires stringValue");
        return S.c_str();
    }
    Int Value::asInt() const
    {
        switch (T) {
            case intValue:
            case uintValue:
                if (!isInt())
                    throw LogicError("LargestInt out of Int range");
                return Int(T == intValue ? I : int64_t(U));
            case realValue:
                if (!(D >= INT32_MIN && D <= INT32_MAX))
                    throw LogicError("double out of Int range");
                return Int(D);
            case nullValue:
                return 0;
            case booleanValue:
                return B;
            default:
                throw LogicError("Value is not convertible to Int.");
        }
    }
    UInt Value::asUInt() const
    {
        switch (T) {
            case intValue:
            case uintValue:
                if (!isUInt())
                    throw LogicError("LargestInt out of UInt range");
                return UInt(T == intValue ? uint64_t(I) : U);
            case realValue:
                if (!(D >= 0 && D <= UINT32_MAX))
                    throw LogicError("double out of UInt range");
                return UInt(D);
            case nullValue:
                return 0;
            case booleanValue:
                return B;
            default:
                throw LogicError("Value is not convertible to UInt.");
        }
    }
    int64_t Value::asInt64() const
    {
        switch (T) {
            case intValue:
                return I;
            case uintValue:
                if (!isInt64())
                    throw LogicError("LargestUInt out of Int64 range");
                return int64_t(U);
            case realValue:
                return int64_t(D);
            case nullValue:
                return 0;
            case booleanValue:
                return B;
            default:
                throw LogicError("Value is not convertible to Int64.");
        }
    }
    uint64_t Value::asUInt64() const
    {
        switch (T) {
            case intValue:
                if (I < 0)
                    throw LogicError("LargestInt out of UInt64 range");
                return uint64_t(I);
            case uintValue:
                return U;
            case realValue:
                return uint64_t(D);
            case nullValue:
                return 0;
            case booleanValue:
                return B;
            default:
                throw LogicError("Value is not convertible to UInt64.");
        }
    }
    double Value::asDouble() const
    {
        switch (T) {
            case intValue:
                return double(I);
            case uintValue:
                return double(U);
            case realValue:
                return D;
            case nullValue:
                return 0;
            case booleanValue:
                return B ? 1 : 0;
            default:
                throw LogicError("Value is not convertible to double.");
        }
    }
    bool Value::asBool() const
    {
        switch (T) {
            case booleanValue:
                return B;
            case nullValue:
                return false;
            case intValue:
                return I != 0;
            case uintValue:
                return U != 0;
            case realValue:
                return D != 0.0;
            default:
                throw LogicError("Value is not convertible to bool.");
        }
    }
    ArrayIndex Value::size() const
    {
        if (T == arrayValue)
            return A->size();
        if (T == objectValue)
            return O->size();
        return 0;
    }
    bool Value::empty() const
    {
        return (T == nullValue || T == arrayValue || T == objectValue) ? size() == 0 : false;
    }
    void Value::clear()
    {
        if (T == arrayValue)
            A->clear();
        if (T == objectValue)
            O->clear();
    }
    Value& Value::operator[](ArrayIndex i)
    {
        auto& a = arr();
        if (i >= a.size())
            a.resize(i + 1);
        return a[i];
    }
    const Value& Value::operator[](ArrayIndex i) const
    {
        if (T == nullValue)
            return nullSingleton();
        if (T != arrayValue)
            throw LogicError("requires arrayValue");
        return i < A->size() ? (*A)[i] : nullSingleton();
    }
    Value Value::get(ArrayIndex i, const Value& d) const
    {
        return i < size() ? (*this)[i] : d;
    }
    Value& Value::append(const Value& v)
    {
        return append(Value(v));
    }
    Value& Value::append(Value&& v)
    {
        auto& a = arr();
        a.push_back(std::move(v));
        return a.back();
    }
    Value& Value::operator[](const std::string& k)
    {
        return obj()[k];
    }
    const Value& Value::operator[](const std::string& k) const
    {
        if (T == nullValue)
            return nullSingleton();
        if (T != objectValue)
            throw LogicError("in Json::Value::find(begin, end): requires objectValue or nullValue");
        auto it = O->find(k);
        return it == O->end() ? nullSingleton() : it->second;
    }
    Value Value::get(const std::string& k, const Value& d) const
    {
        return isMember(k) ? (*this)[k] : d;
    }
    void Value::removeMember(const std::string& k)
    {
        if (T == nullValue)
            return;
        obj().erase(k);
    }
    bool Value::removeMember(const std::string& k, Value* removed)
    {
        if (T != objectValue)
            return false;
        auto it = O->find(k);
        if (it == O->end())
            return false;
        if (removed)
            *removed = it->second;
        O->erase(it);
        return true;
    }
    bool Value::removeIndex(ArrayIndex i, Value* removed)
    {
        if (T != arrayValue || i >= A->size())
            return false;
        if (removed)
            *removed = (*A)[i];
        A->erase(A->begin() + i);
        return true;
    }
    bool Value::isMember(const std::string& k) const
    {
        if (T == nullValue)
            return false;
        if (T != objectValue)
            throw LogicError("in Json::Value::find(begin, end): requires objectValue or nullValue");
        return O->count(k) != 0;
    }
    Value::Members Value::getMemberNames() const
    {
        Members r;
        if (T == nullValue)
            return r;
        if (T != objectValue)
            throw LogicError("requires objectValue");
        for (auto& p: *O)
            r.push_back(p.first);
        return r;
    }
    bool Value::operator<(const Value& o) const
    {
        if (T != o.T)
            return T < o.T;
        switch (T) {
            case intValue:
                return I < o.I;
            case uintValue:
                return U < o.U;
            case realValue:
                return D < o.D;
            case stringValue:
                return S < o.S;
            case booleanValue:
                return B < o.B;
            case arrayValue:
                return *A < *o.A;
            case objectValue:
                return *O < *o.O;
            default:
                return false;
        }
    }
    bool Value::operator==(const Value& o) const
    {
        if (T != o.T)
            return false;
        switch (T) {
            case intValue:
                return I == o.I;
            case uintValue:
                return U == o.U;
            case realValue:
                return D == o.D;
            case stringValue:
                return S == o.S;
            case booleanValue:
                return B == o.B;
            case arrayValue:
                return *A == *o.A;
            case objectValue:
                return *O == *o.O;
            default:
                return true;
        }
    }
    Value::iterator Value::begin()
    {
        if (T == objectValue)
            return iterator(O->begin());
        if (T == arrayValue)
            return iterator(A->begin(), A->begin());
        return iterator();
    }
    Value::iterator Value::end()
    {
        if (T == objectValue)
            return iterator(O->end());
        if (T == arrayValue)
            return iterator(A->end(), A->begin());
        return iterator();
    }
    Value::const_iterator Value::begin() const
    {
        if (T == objectValue)
            return const_iterator(Obj::const_iterator(O->begin()));
        if (T == arrayValue)
            return const_iterator(Arr::const_iterator(A->begin()), Arr::const_iterator(A->begin()));
        return const_iterator();
    }
    Value::const_iterator Value::end() const
    {
        if (T == objectValue)
            return const_iterator(Obj::const_iterator(O->end()));
        if (T == arrayValue)
            return const_iterator(Arr::const_iterator(A->end()), Arr::const_iterator(A->begin()));
        return const_iterator();
    }

    // ---- parser ----
    namespace
    {
        struct P
        {
            const char* p;
            const char* e;
            int depth = 0;
            [[noreturn]] void err(const std::string& m)
            {
                throw RuntimeError("* " + m + "\n");
            }
            void ws()
            {
                for (;;) {
                    while (p < e && isspace((unsigned char)*p))
                        ++p;
                    if (p + 1 < e && p[0] == '/' && p[1] == '/') {
                        while (p < e && *p != '\n')
                            ++p;
                    } else if (p + 1 < e && p[0] == '/' && p[1] == '*') {
                        p += 2;
                        while (p + 1 < e && !(p[0] == '*' && p[1] == '/'))
                            ++p;
                        p += 2;
                        if (p > e)
                            err("Unterminated comment");
                    } else
                        return;
                }
            }
            void utf8(unsigned c, std::string& r)
            {
                if (c < 0x80)
                    r += char(c);
                else if (c < 0x800) {
                    r += char(0xC0 | c >> 6);
                    r += char(0x80 | (c & 63));
                } else if (c < 0x10000) {
                    r += char(0xE0 | c >> 12);
                    r += char(0x80 | ((c >> 6) & 63));
                    r += char(0x80 | (c & 63));
                } else {
                    r += char(0xF0 | c >> 18);
                    r += char(0x80 | ((c >> 12) & 63));
                    r += char(0x80 | ((c >> 6) & 63));
                    r += char(0x80 | (c & 63));
                }
            }
            unsigned hex4()
            {
                if (e - p < 4)
                    err("Bad unicode escape");
                unsigned v = 0;
                for (int i = 0; i < 4; ++i) {
                    char c = *p++;
                    v = v * 16 + (isdigit((unsigned char)c) ? c - '0' : (tolower(c) - 'a' + 10));
                }
                return v;
            }
            std::string str()
            {
                std::string r;
                ++p;
                for (;;) {
                    if (p >= e)
                        err("Missing '\"'");
                    char c = *p++;
                    if (c == '"')
                        return r;
                    if (c != '\\') {
                        r += c;
                        continue;
                    }
                    if (p >= e)
                        err("Empty escape");
                    c = *p++;
                    switch (c) {
                        case 'n':
                            r += '\n';
                            break;
                        case 't':
                            r += '\t';
                            break;
                        case 'r':
                            r += '\r';
                            break;
                        case 'b':
                            r += '\b';
                            break;
                        case 'f':
                            r += '\f';
                            break;
                        case '/':
                        case '\\':
                        case '"':
                            r += c;
                            break;
                        case 'u': {
                            unsigned u = hex4();
                            if (u >= 0xD800 && u < 0xDC00 && e - p >= 6 && p[0] == '\\' && p[1] == 'u') {
                                p += 2;
                                unsigned l = hex4();
                                u = 0x10000 + ((u & 0x3FF) << 10) + (l & 0x3FF);
                            }
                            utf8(u, r);
                            break;
                        }
                        default:
                            err("Bad escape sequence in string");
                    }
                }
            }
            Value val()
            {
                if (++depth > 1000)
                    err("Exceeded stackLimit");
                ws();
                if (p >= e)
                    err("Syntax error: value, object or array expected.");
                Value r;
                if (*p == '{') {
                    r = Value(objectValue);
                    ++p;
                    ws();
                    if (p < e && *p == '}') {
                        ++p;
                    } else
                        for (;;) {
                            ws();
                            if (p < e && *p == '}') {
                                ++p;
                                break;
                            }
                            if (p >= e || *p != '"')
                                err("Missing '}' or object member name");
                            auto k = str();
                            ws();
                            if (p >= e || *p != ':')
                                err("Missing ':' after object member name");
                            ++p;
                            r[k] = val();
                            ws();
                            if (p < e && *p == ',') {
                                ++p;
                                continue;
                            }
                            if (p < e && *p == '}') {
                                ++p;
                                break;
                            }
                            err("Missing ',' or '}' in object declaration");
                        }
                } else if (*p == '[') {
                    r = Value(arrayValue);
                    ++p;
                    for (;;) {
                        ws();
                        if (p < e && *p == ']') {
                            ++p;
                            break;
                        }
                        r.append(val());
                        ws();
                        if (p < e && *p == ',') {
                            ++p;
                            continue;
                        }
                        if (p < e && *p == ']') {
                            ++p;
                            break;
                        }
                        err("Missing ',' or ']' in array declaration");
                    }
                } else if (*p == '"') {
                    r = Value(str());
                } else if (e - p >= 4 && !strncmp(p, "true", 4)) {
                    p += 4;
                    r = Value(true);
                } else if (e - p >= 5 && !strncmp(p, "false", 5)) {
                    p += 5;
                    r = Value(false);
                } else if (e - p >= 4 && !strncmp(p, "null", 4)) {
                    p += 4;
                } else if (*p == '-' || isdigit((unsigned char)*p)) {
                    const char* b = p;
                    bool real = false;
                    ++p;
                    while (p < e && (isdigit((unsigned char)*p) || *p == '.' || *p == 'e' || *p == 'E' ||
                                     ((*p == '+' || *p == '-') && (p[-1] == 'e' || p[-1] == 'E'))))
                    {
                        if (!isdigit((unsigned char)*p))
                            real = true;
                        ++p;
                    }
                    std::string n(b, p);
                    if (!real) {
                        errno = 0;
                        if (n[0] == '-') {
                            long long v = strtoll(n.c_str(), nullptr, 10);
                            r = errno ? Value(strtod(n.c_str(), nullptr)) : Value(v);
                        } else {
                            unsigned long long v = strtoull(n.c_str(), nullptr, 10);
                            if (errno)
                                r = Value(strtod(n.c_str(), nullptr));
                            else if (v <= uint64_t(INT64_MAX))
                                r = Value((long long)v);
                            else
                                r = Value(v);
                        }
                    } else
                        r = Value(strtod(n.c_str(), nullptr));
                } else
                    err("Syntax error: value, object or array expected.");
                --depth;
                return r;
            }
        };

        void quote(const std::string& s, std::string& r)
        {
            r += '"';
            for (unsigned char c: s) {
                switch (c) {
                    case '"':
                        r += "\\\"";
                        break;
                    case '\\':
                        r += "\\\\";
                        break;
                    case '\n':
                        r += "\\n";
                        break;
                    case '\t':
                        r += "\\t";
                        break;
                    case '\r':
                        r += "\\r";
                        break;
                    case '\b':
                        r += "\\b";
                        break;
                    case '\f':
                        r += "\\f";
                        break;
                    default:
                        if (c < 0x20) {
                            char b[8];
                            snprintf(b, sizeof b, "\\u%04x", c);
                            r += b;
                        } else
                            r += char(c);
                }
            }
            r += '"';
        }
        void wr(const Value& v, const std::string& ind, const std::string& cur, std::string& r)
        {
            std::string nl = ind.empty() ? "" : "\n";
            switch (v.type()) {
                case nullValue:
                    r += "null";
                    break;
                case stringValue:
                    quote(v.asString(), r);
                    break;
                case arrayValue: {
                    if (v.empty()) {
                        r += "[]";
                        break;
                    }
                    r += '[';
                    bool f = true;
                    for (auto& x: v) {
                        if (!f)
                            r += ',';
                        f = false;
                        if (!ind.empty())
                            r += nl + cur + ind;
                        wr(x, ind, cur + ind, r);
                    }
                    if (!ind.empty())
                        r += nl + cur;
                    r += ']';
                    break;
                }
                case objectValue: {
                    if (v.empty()) {
                        r += "{}";
                        break;
                    }
                    r += '{';
                    bool f = true;
                    for (auto it = v.begin(); it != v.end(); ++it) {
                        if (!f)
                            r += ',';
                        f = false;
                        if (!ind.empty())
                            r += nl + cur + ind;
                        quote(it.name(), r);
                        r += ind.empty() ? ":" : " : ";
                        wr(*it, ind, cur + ind, r);
                    }
                    if (!ind.empty())
                        r += nl + cur;
                    r += '}';
                    break;
                }
                default:
                    r += v.asString();
            }
        }
    }
    bool CharReader::parse(const char* b, const char* e, Value* root, String* errs)
    {
        try {
            P p{b, e};
            *root = p.val();
            p.ws();
            if (p.p < e)
                p.err("Extra non-whitespace after JSON value.");
            return true;
        } catch (const Exception& ex) {
            if (errs)
                *errs = ex.what();
            return false;
        }
    }
    int StreamWriter::write(const Value& root, std::ostream* s)
    {
        std::string r;
        wr(root, Indent, "", r);
        *s << r;
        return 0;
    }
    StreamWriter* StreamWriterBuilder::newStreamWriter() const
    {
        auto w = new StreamWriter();
        w->Indent = settings_["indentation"].asString();
        return w;
    }
    String writeString(const StreamWriterBuilder& b, const Value& v)
    {
        std::unique_ptr<StreamWriter> w(b.newStreamWriter());
        std::ostringstream s;
        w->write(v, &s);
        return s.str();
    }
    bool parseFromStream(const CharReaderBuilder&, std::istream& s, Value* root, String* errs)
    {
        std::string d((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>());
        CharReader r;
        return r.parse(d.data(), d.data() + d.size(), root, errs);
    }
    std::ostream& operator<<(std::ostream& s, const Value& v)
    {
        std::string r;
        wr(v, "\t", "", r);
        return s << r;
    }
    std::istream& operator>>(std::istream& s, Value& v)
    {
        String e;
        if (!parseFromStream(CharReaderBuilder(), s, &v, &e))
            throw RuntimeError(e);
        return s;
    }
    std::string Value::toStyledString() const
    {
        std::string r;
        wr(*this, "   ", "", r);
        return r + "\n";
    }
}
