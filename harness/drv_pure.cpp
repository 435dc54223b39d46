// Runs the parts of the real code that compute without devices and records what they give.
// usage: pure SCENARIOS.ndjson TRACE.ndjson ; a scenario is {"id":..,"items":[{"o":kind,...}]}
// Strings are arrays of character codes, 64-bit values are four 16-bit words, the most significant one first,
// decimal numbers are {"m":mantissa,"e":exponent}.
#include "bcd_utils.h"
#include "bin_utils.h"
#include "common_utils.h"
#include "crc16.h"
#include "expression_evaluator.h"
#include "modbus_base.h"
#include "register.h"
#include "serial_exc.h"
#include "vh.h"
#include <deque>

typedef std::vector<uint8_t> TBytes;

static std::string Str(const Json::Value& a)
{
    std::string s;
    for (auto& c: a) {
        s += (char)c.asInt();
    }
    return s;
}
static Json::Value Codes(const std::string& s)
{
    Json::Value a(Json::arrayValue);
    for (unsigned char c: s) {
        a.append((int)c);
    }
    return a;
}
static TBytes Bytes(const Json::Value& a)
{
    TBytes b;
    for (auto& c: a) {
        b.push_back(c.asInt());
    }
    return b;
}
template<class T> static Json::Value Arr(const T& b)
{
    Json::Value a(Json::arrayValue);
    for (auto c: b) {
        a.append((int)c);
    }
    return a;
}
static uint64_t U64Of(const Json::Value& a)
{
    uint64_t v = 0;
    for (auto& w: a) {
        v = (v << 16) | (uint64_t)w.asInt();
    }
    return v;
}
static Json::Value Words(uint64_t v)
{
    Json::Value a(Json::arrayValue);
    for (int i = 3; i >= 0; --i) {
        a.append((int)((v >> (i * 16)) & 0xffff));
    }
    return a;
}
static double Dec(const Json::Value& d)
{
    return strtod((std::to_string(d["m"].asInt()) + "e" + std::to_string(d["e"].asInt())).c_str(), nullptr);
}

struct TParams: public Expressions::IParams
{
    std::map<std::string, int32_t> M;
    std::optional<int32_t> Get(const std::string& name) const override
    {
        auto it = M.find(name);
        return it == M.end() ? std::nullopt : std::optional<int32_t>(it->second);
    }
};

static void DoExpr(Json::Value& e)
{
    std::unique_ptr<Expressions::TAstNode> ast;
    try {
        Expressions::TParser p;
        ast = p.Parse(Str(e["s"]));
        e["ok"] = true;
    } catch (const std::exception&) {
        e["ok"] = false;
        return;
    }
    e["vs"] = Json::Value(Json::arrayValue);
    for (auto& ps: e["ps"]) {
        TParams params;
        for (auto& p: ps) {
            params.M[Str(p[0])] = p[1].asInt();
        }
        e["vs"].append(Expressions::Eval(ast.get(), params));
    }
    e["deps"] = Json::Value(Json::arrayValue);
    for (auto& d: Expressions::GetDependencies(ast.get())) {
        e["deps"].append(Codes(d));
    }
}

static const std::map<std::string, RegisterFormat> FORMATS = {
    {"U8", U8},       {"S8", S8},       {"U16", U16},     {"S16", S16},     {"S24", S24},     {"U24", U24},
    {"U32", U32},     {"S32", S32},     {"S64", S64},     {"U64", U64},     {"BCD8", BCD8},   {"BCD16", BCD16},
    {"BCD24", BCD24}, {"BCD32", BCD32}, {"Float", Float}, {"Double", Double}, {"Char8", Char8}, {"String", String},
    {"String8", String8}};

static void DoCodec(Json::Value& e)
{
    auto cfg = TRegisterConfig::Create(0,
                                       10,
                                       FORMATS.at(e["fmt"].asString()),
                                       Dec(e["sc"]),
                                       Dec(e["of"]),
                                       Dec(e["rt"]),
                                       TRegisterConfig::TSporadicMode::DISABLED,
                                       false,
                                       "holding",
                                       EWordOrder::BigEndian,
                                       EByteOrder::BigEndian,
                                       0,
                                       0);
    auto put = [&](const char* name, const TRegisterValue& v) {
        e[name] = v.GetType() == TRegisterValue::ValueType::String ? Codes(v.Get<std::string>()) : Words(v.Get<uint64_t>());
    };
    try {
        bool str = cfg->IsString();
        if (e["dir"] == "dec" || e["dir"] == "rt") {
            TRegisterValue v = str ? TRegisterValue(Str(e["raw"])) : TRegisterValue(U64Of(e["raw"]));
            auto text = ConvertFromRawValue(*cfg, v);
            e["text"] = Codes(text);
            if (e["dir"] == "rt") {
                put("raw2", ConvertToRawValue(*cfg, text));
            }
        } else {
            put("raw", ConvertToRawValue(*cfg, Str(e["text"])));
        }
        e["ok"] = true;
    } catch (const std::exception&) {
        e["ok"] = false;
    }
}

static std::unordered_map<uint8_t, TBytes> Rules(const Json::Value& a)
{
    std::unordered_map<uint8_t, TBytes> r;
    for (auto& x: a) {
        r[x[0].asInt()] = Bytes(x[1]);
    }
    return r;
}

static void DoBin(Json::Value& e)
{
    auto f = e["f"].asString();
    auto d = Bytes(e["d"]);
    TBytes out;
    if (f == "get") {
        e["r"] = Words(BinUtils::Get<uint64_t>(d.begin(), d.end()));
    } else if (f == "getbe") {
        e["r"] = Words(BinUtils::GetBigEndian<uint64_t>(d.begin(), d.end()));
    } else if (f == "from") {
        // fixed widths
        e["r"] = d.size() == 1   ? Words(BinUtils::GetFrom<uint8_t>(d.begin()))
                 : d.size() == 2 ? Words(BinUtils::GetFrom<uint16_t>(d.begin()))
                 : d.size() == 4 ? Words(BinUtils::GetFrom<uint32_t>(d.begin()))
                                 : Words(BinUtils::GetFrom<uint64_t>(d.begin()));
    } else if (f == "frombe") {
        e["r"] = d.size() == 1   ? Words(BinUtils::GetFromBigEndian<uint8_t>(d.begin()))
                 : d.size() == 2 ? Words(BinUtils::GetFromBigEndian<uint16_t>(d.begin()))
                 : d.size() == 4 ? Words(BinUtils::GetFromBigEndian<uint32_t>(d.begin()))
                                 : Words(BinUtils::GetFromBigEndian<uint64_t>(d.begin()));
    } else if (f == "put") {
        BinUtils::Append(std::back_inserter(out), U64Of(e["v"]), e["n"].asInt());
        e["r"] = Arr(out);
    } else if (f == "putbe") {
        BinUtils::AppendBigEndian(std::back_inserter(out), U64Of(e["v"]), e["n"].asInt());
        e["r"] = Arr(out);
    } else if (f == "mask") {
        e["r"] = Words(BinUtils::GetLSBMask(e["n"].asInt()));
    } else if (f == "stuff") {
        BinUtils::ApplyByteStuffing(d, Rules(e["rules"]), std::back_inserter(out));
        e["r"] = Arr(out);
    } else if (f == "unstuff") {
        BinUtils::DecodeByteStuffing(d, Rules(e["rules"]));
        e["r"] = Arr(d);
    } else if (f == "w2") {
        uint8_t b[2];
        BinUtils::WriteAs2Bytes(b, e["n"].asInt());
        e["r"].append(b[0]);
        e["r"].append(b[1]);
    } else if (f == "crc") {
        auto c = CRC16::CalculateCRC16(d.data(), d.size());
        e["r"] = (int)c;
    } else if (f == "bcd2int") {
        e["r"] = Words(PackedBCD2Int(U64Of(e["v"]), (WordSizes)e["n"].asInt()));
    } else if (f == "int2bcd") {
        e["r"] = Words(IntToPackedBCD(U64Of(e["v"]), (WordSizes)e["n"].asInt()));
    } else if (f == "bcdarr") {
        e["r"] = Arr(IntToBCDArray(U64Of(e["v"]), (WordSizes)e["n"].asInt()));
    }
}

// Bytes arrive in bursts; the line is silent for more than any timeout between them
class TBurstPort: public TPort
{
public:
    TBytes Sent;
    std::deque<std::deque<uint8_t>> Rx;
    std::string Name;
    void Open() override
    {}
    void Close() override
    {}
    bool IsOpen() const override
    {
        return true;
    }
    void CheckPortOpen() const override
    {}
    void WriteBytes(const uint8_t* buf, int count) override
    {
        Sent.insert(Sent.end(), buf, buf + count);
    }
    uint8_t ReadByte(const std::chrono::microseconds& timeout) override
    {
        uint8_t b;
        ReadFrame(&b, 1, timeout, timeout);
        return b;
    }
    TReadFrameResult ReadFrame(uint8_t* buf,
                               size_t count,
                               const std::chrono::microseconds& responseTimeout,
                               const std::chrono::microseconds& frameTimeout,
                               TFrameCompletePred done = 0) override
    {
        TReadFrameResult r;
        if (count == 0) {
            return r;
        }
        vh::AdvanceUs(1000);
        if (!Rx.empty() && Rx.front().empty()) {
            // the end of a burst: silence, then the next one
            Rx.pop_front();
            if (Rx.empty() || frameTimeout == responseTimeout) {
                vh::AdvanceUs(responseTimeout.count() > 0 ? responseTimeout.count() : 500000);
                throw TResponseTimeoutException();
            }
        }
        if (Rx.empty()) {
            vh::AdvanceUs(responseTimeout.count() > 0 ? responseTimeout.count() : 500000);
            throw TResponseTimeoutException();
        }
        auto& q = Rx.front();
        while (r.Count < count && !q.empty()) {
            buf[r.Count++] = q.front();
            q.pop_front();
            if (done && done(buf, r.Count)) {
                break;
            }
        }
        return r;
    }
    void SkipNoise() override
    {}
    void SleepSinceLastInteraction(const std::chrono::microseconds&) override
    {}
    std::chrono::microseconds GetSendTimeBytes(double) const override
    {
        return std::chrono::microseconds(1);
    }
    std::chrono::microseconds GetSendTimeBits(size_t) const override
    {
        return std::chrono::microseconds(1);
    }
    std::string GetDescription(bool) const override
    {
        return Name;
    }
};

template<class F> static std::string Caught(F f)
{
    try {
        f();
        return "ok";
    } catch (const Modbus::TModbusExceptionError& x) {
        return "exc" + std::to_string(x.GetExceptionCode());
    } catch (const Modbus::TErrorBase&) {
        return "bad";
    } catch (const TResponseTimeoutException&) {
        return "to";
    } catch (const std::exception& x) {
        return "other";
    }
}

// a request is made and sent, bytes come back, the answer is taken apart
static void DoFrame(Json::Value& e, TBurstPort& port)
{
    auto fn = (Modbus::EFunction)e["fn"].asInt();
    auto d = Bytes(e["d"]);
    TBytes pdu;
    e["mk"] = Caught([&] {
        pdu = fn == 23 ? Modbus::MakePDU(fn,
                                         e["a"].asInt(),
                                         e["n"].asInt(),
                                         e["wa"].asInt(),
                                         e["wn"].asInt(),
                                         d)
                       : Modbus::MakePDU(fn, e["a"].asInt(), e["n"].asInt(), d);
    });
    e["pdu"] = Arr(pdu);
    if (e["mk"] != "ok") {
        return;
    }
    size_t size = Modbus::CalcResponsePDUSize(fn, e["n"].asInt());
    e["size"] = (int)size;
    port.Sent.clear();
    port.Rx.clear();
    for (auto& b: e["rx"]) {
        std::deque<uint8_t> q;
        for (auto& x: b) {
            q.push_back(x.asInt());
        }
        port.Rx.push_back(q);
    }
    std::unique_ptr<Modbus::IModbusTraits> traits;
    bool tcp = e["tcp"].asBool();
    if (tcp) {
        traits = Modbus::TModbusTCPTraitsFactory().GetModbusTraits(false);
    } else {
        traits = Modbus::TModbusRTUTraitsFactory().GetModbusTraits(e["ff"].asBool());
    }
    TBytes data;
    e["res"] = Caught([&] {
        auto r = traits->Transaction(port,
                                     e["sid"].asInt(),
                                     pdu,
                                     size,
                                     std::chrono::milliseconds(100),
                                     std::chrono::milliseconds(10));
        e["rpdu"] = Arr(r.Pdu);
        data = Modbus::ExtractResponseData(fn, r.Pdu);
    });
    e["sent"] = Arr(port.Sent);
    e["data"] = Arr(data);
}

int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    vh::TOut out;
    out.Open(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Json::Value sc = WBMQTT::JSON::Parse(ss);
        Json::Value s;
        s["o"] = "start";
        s["id"] = sc["id"];
        out.Write(s);
        vh::Start();
        TBurstPort port;
        port.Name = sc["id"].asString();
        Modbus::TModbusTCPTraits::ResetTransactionId(port);
        for (auto& it: sc["items"]) {
            Json::Value e = it;
            auto o = e["o"].asString();
            if (o == "expr") {
                DoExpr(e);
            } else if (o == "codec") {
                DoCodec(e);
            } else if (o == "ver") {
                try {
                    int r = util::CompareVersionStrings(Str(e["a"]), Str(e["b"]));
                    e["r"] = r < 0 ? -1 : r > 0 ? 1 : 0;
                } catch (const std::exception&) {
                    e["r"] = -2;
                }
            } else if (o == "topic") {
                e["valid"] = util::IsValidMqttTopicString(Str(e["s"]));
                e["r"] = Codes(util::ConvertToValidMqttTopicString(Str(e["s"])));
            } else if (o == "bin") {
                DoBin(e);
            } else if (o == "frame") {
                DoFrame(e, port);
            }
            out.Write(e);
        }
        vh::Enabled = false;
    }
}
