// The real RPC handlers (port/*, device/*, fw-update/*) on top of the real driver with simulated slaves, in virtual time.
// usage: rpc SCENARIOS.ndjson TRACE.ndjson [REPO]
#include "confed_protocol_schemas_map.h"
#include "fakebus.h"
#include "port/feature_port.h"
#include "rpc/rpc_config.h"
#include "rpc/rpc_device_handler.h"
#include "rpc/rpc_fw_downloader.h"
#include "rpc/rpc_fw_update_handler.h"
#include "rpc/rpc_port_driver_list.h"
#include "rpc/rpc_port_handler.h"
#include "serial_config.h"
#include "serial_driver.h"
#include "templates_map.h"
#include <filesystem>
using namespace std::chrono;

class FwHandlerIntegrationTest
{
public:
    static std::shared_ptr<TRPCFwUpdateHandler> Make(ITaskRunner& r,
                                                     PHttpClient h,
                                                     PFwUpdateState s,
                                                     const std::string& suite,
                                                     WBMQTT::PMqttRpcServer srv)
    {
        auto p = std::shared_ptr<TRPCFwUpdateHandler>(new TRPCFwUpdateHandler(r, h, s, suite));
        p->RegisterRpcMethods(srv);
        return p;
    }
};

// the server with firmware releases
class THttp: public IHttpClient
{
public:
    std::map<std::string, std::string> Texts;
    std::map<std::string, std::vector<uint8_t>> Images;
    bool Down = false;
    std::function<void(const std::string&, bool)> OnGet;
    std::string GetText(const std::string& url) override
    {
        bool ok = !Down && Texts.count(url);
        OnGet(url, ok);
        if (!ok) {
            throw std::runtime_error("HTTP 404 downloading " + url);
        }
        return Texts[url];
    }
    std::vector<uint8_t> GetBinary(const std::string& url) override
    {
        bool ok = !Down && Images.count(url);
        OnGet(url, ok);
        if (!ok) {
            throw std::runtime_error("HTTP 404 downloading " + url);
        }
        return Images[url];
    }
};

struct TWorld
{
    std::string Repo;
    TSerialDeviceFactory Factory;
    Json::Value Common, TemplatesSchema, Ports;
    std::unique_ptr<TProtocolConfedSchemasMap> Protocols;
    std::string Scratch;
};

static void Write(const std::string& fn, const std::string& text)
{
    std::ofstream f(fn);
    f << text;
}

static Json::Value HexBytes(const std::string& s)
{
    Json::Value r(Json::arrayValue);
    for (size_t i = 0; i + 1 < s.size() + 1; i += 2) {
        char* end = nullptr;
        auto part = s.substr(i, 2);
        long v = strtol(part.c_str(), &end, 16);
        r.append(part.size() == 2 && *end == 0 ? (int)v : -1);
    }
    return r;
}

static Json::Value StrBytes(const std::string& s)
{
    Json::Value r(Json::arrayValue);
    for (unsigned char c: s) {
        r.append((int)c);
    }
    return r;
}

// numbers of replies are compared as texts: TLA+ has neither fractions nor more than 32 bits
static Json::Value Flat(const Json::Value& v)
{
    Json::Value r = v;
    if (v.isObject()) {
        r = Json::Value(Json::objectValue);
        for (auto& n: v.getMemberNames()) {
            r[n] = Flat(v[n]);
        }
    } else if (v.isArray()) {
        r = Json::Value(Json::arrayValue);
        for (auto& i: v) {
            r.append(Flat(i));
        }
    } else if (v.isBool()) {
        r = v.asBool() ? "true" : "false";
    } else if (v.isNull()) {
        r = "null";
    } else if (v.isIntegral()) {
        r = "i" + v.asString();
    } else if (v.isDouble()) {
        char b[40];
        snprintf(b, sizeof b, "d%.15g", v.asDouble());
        r = b;
    } else {
        r = "s" + v.asString();
    }
    return r;
}

static void RunScenario(const Json::Value& sc, vh::TOut& out, TWorld& w)
{
    vh::Start();
    Json::Value st = sc;
    st["o"] = "start";
    st["t"] = 0;
    for (auto k: {"acts", "files", "conf", "slaves", "texts", "images"}) {
        st.removeMember(k);
    }
    out.Write(st);
    auto dir = w.Scratch + "/t";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir);
    std::vector<bus::PBusPort> ports;
    auto templates = std::make_shared<TTemplateMap>(w.TemplatesSchema, dir);
    for (auto& n: sc["files"].getMemberNames()) {
        Write(dir + "/" + n, sc["files"][n].asString());
    }
    templates->AddTemplatesDir(dir);
    auto conf = w.Scratch + "/conf.json";
    Write(conf, sc["conf"].asString());
    auto factory = [&](const Json::Value& p, PRPCConfig) -> PFeaturePort {
        bool tcp = p.get("port_type", "serial").asString() == "modbus tcp";
        auto b = std::make_shared<bus::TBusPort>(out, tcp, 100);
        b->Name = p.isMember("path") ? p["path"].asString() : p["address"].asString() + ":" + p["port"].asString();
        b->LogRaw = true;
        int pi = ports.size(), di = 0;
        for (auto& s: sc["slaves"][pi]) {
            Json::Value d;
            d["slave"] = s;
            b->Slaves.push_back(bus::MakeSlave(d, di++, s["sid"].asInt()));
        }
        ports.push_back(b);
        return std::make_shared<TFeaturePort>(b, tcp, p.get("connected_to_mge", false).asBool());
    };
    auto rpcConfig = std::make_shared<TRPCConfig>();
    auto cfg = LoadConfig(conf, w.Factory, w.Common, *templates, rpcConfig, w.Ports, *w.Protocols, factory);

    auto emit = [&](Json::Value e) {
        for (auto& p: ports) {
            p->Flush();
        }
        e["t"] = (Json::Int64)vh::NowUs();
        out.Write(e);
    };
    int dn = 0;
    for (auto& pc: cfg->PortConfigs) {
        for (auto& d: pc->Devices) {
            d->Device->AddOnConnectionStateChangedCallback([&, dn](PSerialDevice d) {
                Json::Value e;
                e["o"] = "conn";
                e["d"] = dn;
                e["up"] = d->GetConnectionState() == TDeviceConnectionState::CONNECTED;
                emit(e);
            });
            ++dn;
        }
    }
    for (size_t i = 0; i < ports.size(); ++i) {
        ports[i]->Before = [&]() {
            for (auto& q: ports) {
                q->Flush();
            }
        };
        ports[i]->Port = i;
    }
    auto driver = std::make_shared<WBMQTT::TDeviceDriver>();
    auto serial = std::make_shared<TMQTTSerialDriver>(driver, cfg);
    TSerialClientTaskRunner runner(serial);
    TRPCDeviceParametersCache cache;
    cache.RegisterCallbacks(cfg);
    auto server = std::make_shared<WBMQTT::TMqttRpcServer>();
    auto schema = [&](const std::string& n) { return w.Repo + "/wb-mqtt-serial-rpc-" + n + "-request.schema.json"; };
    TRPCPortHandler
        portHandler(schema("port-load"), schema("port-setup"), schema("port-scan"), rpcConfig, runner, cache, server);
    TRPCDeviceHandler deviceHandler(conf,
                                    schema("device-load-config"),
                                    schema("device-load"),
                                    schema("device-set"),
                                    schema("device-probe"),
                                    schema("device-set-poll"),
                                    w.Factory,
                                    templates,
                                    runner,
                                    cache,
                                    server);
    auto http = std::make_shared<THttp>();
    for (auto& n: sc["texts"].getMemberNames()) {
        http->Texts[n] = sc["texts"][n].asString();
    }
    for (auto& n: sc["images"].getMemberNames()) {
        for (auto& b: sc["images"][n]) {
            http->Images[n].push_back(b.asInt());
        }
        http->Images[n];
    }
    http->OnGet = [&](const std::string& url, bool ok) {
        Json::Value e;
        e["o"] = "http";
        e["url"] = url;
        e["ok"] = ok;
        emit(e);
    };
    auto state = std::make_shared<TFwUpdateState>(
        [&](const std::string&, const std::string& payload, bool retain) {
            std::stringstream ss(payload);
            Json::Value e, v = WBMQTT::JSON::Parse(ss);
            e["o"] = "fwst";
            e["ret"] = retain;
            e["list"] = Json::Value(Json::arrayValue);
            for (auto& d: v["devices"]) {
                Json::Value x;
                x["port"] = d["port"]["path"];
                x["s"] = d["slave_id"];
                x["ty"] = d["type"];
                x["pr"] = d["progress"];
                x["from"] = d["from_version"];
                x["to"] = d["to_version"];
                x["proto"] = d["protocol"];
                x["err"] = d["error"].isNull() ? "" : d["error"]["id"].asString();
                x["num"] = d["component_number"].isNull() ? Json::Value(-1) : d["component_number"];
                x["model"] = d["component_model"].isNull() ? Json::Value("") : d["component_model"];
                e["list"].append(x);
            }
            emit(e);
        },
        "state");
    auto fw = FwHandlerIntegrationTest::Make(runner, http, state, sc.get("suite", "stable").asString(), server);

    // ports that may have something to do since they were idle
    std::set<size_t> called;
    size_t cur = 0;
    auto call = [&](const Json::Value& a) {
        Json::Value e;
        e["o"] = "call";
        e["id"] = a["id"];
        e["cy"] = Json::Value(Json::arrayValue);
        for (auto& p: ports) {
            e["cy"].append(p->Cy);
        }
        emit(e);
        for (size_t i = 0; i < ports.size(); ++i) {
            called.insert(i);
        }
        int id = a["id"].asInt();
        auto q = a["q"];
        auto m = a["m"].asString();
        bool hex = q.get("format", "").asString() == "HEX";
        auto reply = [&, id, m, hex](const std::string& k, int code, const Json::Value& v, const std::string& text) {
            Json::Value r;
            r["o"] = "rep";
            r["id"] = id;
            r["k"] = k;
            r["c"] = code;
            r["err"] = text;
            r["v"] = Flat(v);
            r["rb"] = Json::Value(Json::arrayValue);
            r["has"] = Json::Value(Json::arrayValue);
            if (v.isObject()) {
                for (auto& n: v.getMemberNames()) {
                    r["has"].append(n);
                }
                if (m == "port/Load" && v.isMember("response")) {
                    r["rb"] = hex ? HexBytes(v["response"].asString()) : StrBytes(v["response"].asString());
                }
            }
            emit(r);
        };
        try {
            if (server->Methods.count(m)) {
                reply("ok", 0, server->Methods[m](q), "");
            } else {
                server->AsyncMethods.at(m)(
                    q,
                    [reply](const Json::Value& v) { reply("ok", 0, v, ""); },
                    [reply](int code, const std::string& t) { reply("err", code, Json::Value(), t); });
            }
        } catch (const std::exception& ex) {
            // the server answers so when a method throws
            reply("err", -1, Json::Value(), ex.what());
        }
        Json::Value r;
        r["o"] = "called";
        r["id"] = id;
        emit(r);
    };
    for (auto& a: sc["acts"]) {
        std::string k = a["a"].asString();
        vh::At(
            a["t"].asInt64(),
            [&, a, k]() {
                auto slave = [&]() -> bus::TSlave& { return *ports[a.get("p", 0).asInt()]->Slaves[a["d"].asInt()]; };
                if (k == "call") {
                    call(a);
                    return;
                }
                Json::Value e = a;
                e["o"] = "act";
                if (k == "dead") {
                    slave().Online = false;
                } else if (k == "live") {
                    slave().Online = true;
                } else if (k == "mem") {
                    for (Json::ArrayIndex i = 0; i < a["v"].size(); ++i) {
                        slave().Mem[{a["tab"].asInt(), a["ad"].asInt() + (int)i}] = a["v"][i].asInt();
                    }
                } else if (k == "fault") {
                    slave().Faults.push_back({a["n"].asInt(),
                                              a["kind"].asString(),
                                              a.get("c", 0).asInt(),
                                              a.get("wr", false).asBool(),
                                              a.get("ad", -1).asInt()});
                } else if (k == "scanfault") {
                    for (auto& f: a["list"]) {
                        ports[a.get("p", 0).asInt()]->EvFaults.push_back(f.asString());
                    }
                } else if (k == "failopen") {
                    ports[a.get("p", 0).asInt()]->FailOpen = a["v"].asBool();
                } else if (k == "failwrite") {
                    ports[a.get("p", 0).asInt()]->FailWrite = a["v"].asBool();
                } else if (k == "http") {
                    http->Down = !a["v"].asBool();
                }
                emit(e);
            },
            a.get("bus", true).asBool());
    }
    vh::OnWaitBegin = [&]() {
        if (called.count(cur)) {
            Json::Value e;
            e["o"] = "idle";
            e["p"] = (int)cur;
            emit(e);
            called.erase(cur);
        }
    };
    vh::OnWait = [&]() {
        for (auto& p: ports) {
            p->CycleUs = vh::NowUs();
        }
    };
    int64_t dur = sc["dur"].asInt64(), last = -1;
    auto before = out.Count;
    int guard = 0;
    while (vh::NowUs() < dur && out.Count - before < (size_t)sc.get("maxev", 6000).asInt()) {
        cur = 0;
        for (auto& pd: serial->GetPortDrivers()) {
            ++ports[cur]->Cy;
            pd->Cycle();
            ++cur;
        }
        if (vh::NowUs() == last) {
            if (++guard > 200) {
                vh::AdvanceUs(1000);
                guard = 0;
            }
        } else {
            guard = 0;
            last = vh::NowUs();
        }
    }
    Json::Value e;
    e["o"] = "end";
    e["full"] = vh::NowUs() >= dur;
    emit(e);
    vh::OnWait = nullptr;
    vh::OnWaitBegin = nullptr;
    vh::ClearActions();
    for (auto& p: ports) {
        p->Opened = false;
        p->Before = nullptr;
    }
    serial->ClearDevices();
}

int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    vh::TOut out;
    out.Open(argv[2]);
    TWorld w;
    w.Repo = argc > 3 ? argv[3] : "/repo";
    RegisterProtocols(w.Factory);
    w.Common = WBMQTT::JSON::Parse(w.Repo + "/wb-mqtt-serial-confed-common.schema.json");
    w.TemplatesSchema = LoadConfigTemplatesSchema(w.Repo + "/wb-mqtt-serial-device-template.schema.json", w.Common);
    w.Ports = WBMQTT::JSON::Parse(w.Repo + "/wb-mqtt-serial-ports.schema.json");
    w.Protocols = std::make_unique<TProtocolConfedSchemasMap>(w.Repo + "/protocols", w.Common);
    char tmp[] = "rpc.XXXXXX";
    w.Scratch = std::string(mkdtemp(tmp));
    std::string line;
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Json::Value sc = WBMQTT::JSON::Parse(ss);
        RunScenario(sc, out, w);
    }
    std::filesystem::remove_all(w.Scratch);
    return 0;
}
