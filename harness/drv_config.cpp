// The real loading of templates and of the configuration file, and the real MQTT side of the driver on top of the
// serial client with simulated slaves, in virtual time.
// usage: config SCENARIOS.ndjson TRACE.ndjson [REPO]
#include "confed_protocol_schemas_map.h"
#include "config_merge_template.h"
#include "devices/modbus_device.h"
#include "fakebus.h"
#include "port/feature_port.h"
#include "serial_config.h"
#include "serial_driver.h"
#include "templates_map.h"
#include <filesystem>
using namespace std::chrono;

static std::string G(double v)
{
    char b[40];
    snprintf(b, sizeof b, "%.15g", v);
    return b;
}
static Json::Value Num(const std::string& s)
{
    return s;
}
static Json::Value Pairs(const TTitleTranslations& t)
{
    Json::Value r(Json::arrayValue);
    for (auto& i: std::map<std::string, std::string>(t.begin(), t.end())) {
        Json::Value p(Json::arrayValue);
        p.append(i.first);
        p.append(i.second);
        r.append(p);
    }
    return r;
}
static Json::Value Addr(const IRegisterAddress& a)
{
    auto u = dynamic_cast<const TUint32RegisterAddress*>(&a);
    return u ? Json::Value((int)u->Get()) : Json::Value(-2);
}
static Json::Value Val(const std::optional<TRegisterValue>& v)
{
    return v ? Json::Value(std::to_string(v->Get<uint64_t>())) : Json::Value("");
}
static Json::Value Reg(const TRegisterConfig& c)
{
    Json::Value r;
    r["tn"] = c.TypeName;
    r["a"] = c.AccessType == TRegisterConfig::EAccessType::WRITE_ONLY ? Json::Value(-1) : Addr(c.GetAddress());
    r["wa"] = Addr(c.GetWriteAddress());
    r["off"] = (int)c.GetDataOffset();
    r["w"] = c.IsPartial() ? (int)c.GetDataWidth() : 0;
    r["fmt"] = (int)c.Format;
    r["sc"] = G(c.Scale);
    r["of"] = G(c.Offset);
    r["rt"] = G(c.RoundTo);
    r["sp"] = (int)c.SporadicMode;
    static const char* acc[] = {"rw", "ro", "wo"};
    r["acc"] = c.AccessType == TRegisterConfig::EAccessType::READ_ONLY    ? "ro"
               : c.AccessType == TRegisterConfig::EAccessType::WRITE_ONLY ? "wo"
                                                                          : "rw";
    r["wo"] = c.WordOrder == EWordOrder::LittleEndian;
    r["bo"] = c.ByteOrder == EByteOrder::LittleEndian;
    r["per"] = c.ReadPeriod ? (int)c.ReadPeriod->count() : -1;
    r["lim"] = c.ReadRateLimit ? (int)c.ReadRateLimit->count() : -1;
    r["errv"] = Val(c.ErrorValue);
    r["unsv"] = Val(c.UnsupportedValue);
    r["fw"] = c.FwVersion;
    return r;
}
static Json::Value Device(TSerialDeviceWithChannels& d)
{
    auto& c = *d.Device->DeviceConfig();
    Json::Value r;
    r["id"] = c.Id;
    r["name"] = c.Name;
    r["type"] = c.DeviceType;
    r["sid"] = c.SlaveId;
    r["proto"] = d.Device->Protocol()->GetName();
    r["wb"] = d.Device->IsWbDevice();
    r["delay"] = (int)c.RequestDelay.count();
    r["resp"] = (int)c.ResponseTimeout.count();
    r["frame"] = (int)c.FrameTimeout.count();
    r["tmo"] = (int)c.DeviceTimeout.count();
    r["cyc"] = c.DeviceMaxFailCycles;
    r["wrfail"] = (int)c.MaxWriteFailTime.count();
    r["hole"] = c.MaxRegHole;
    r["bithole"] = c.MaxBitHole;
    r["maxread"] = c.MaxReadRegisters;
    r["minread"] = (int)c.MinReadRegisters;
    r["maxwrite"] = (int)c.MaxWriteRegisters;
    r["minint"] = (int)c.MinRequestInterval.count();
    r["order"] = c.PreserveSetupOrder;
    r["cont"] = c.ContinuePollingOnIllegalModbusException;
    r["sponly"] = d.Device->IsSporadicOnly();
    Json::Value pw(Json::arrayValue);
    for (auto b: c.Password) {
        pw.append((int)b);
    }
    r["pw"] = pw;
    Json::Value su(Json::arrayValue);
    for (auto& i: d.Device->GetSetupItems()) {
        Json::Value x = Reg(*i->RegisterConfig);
        x["n"] = i->Name;
        x["v"] = i->HumanReadableValue;
        su.append(x);
    }
    r["setup"] = su;
    Json::Value chs(Json::arrayValue);
    for (auto& ch: d.Channels) {
        Json::Value x;
        x["id"] = ch->MqttId;
        x["type"] = ch->Type;
        x["order"] = ch->Order;
        x["ro"] = ch->ReadOnly;
        x["units"] = ch->Units;
        x["hidden"] = ch->Hidden;
        x["max"] = G(ch->Max);
        x["min"] = G(ch->Min);
        x["on"] = ch->OnValue;
        x["off"] = ch->OffValue;
        x["prec"] = G(ch->Precision);
        x["dev"] = ch->DeviceId;
        x["titles"] = Pairs(ch->GetTitles());
        Json::Value en(Json::arrayValue);
        for (auto& e: ch->GetEnumTitles()) {
            Json::Value p(Json::arrayValue);
            p.append(e.first);
            p.append(Pairs(e.second));
            en.append(p);
        }
        x["enum"] = en;
        Json::Value rs(Json::arrayValue);
        for (auto& g: ch->Registers) {
            rs.append(Reg(*g->GetConfig()));
        }
        x["regs"] = rs;
        chs.append(x);
    }
    r["ch"] = chs;
    return r;
}

struct TWorld
{
    std::string Repo;
    TSerialDeviceFactory Factory;
    Json::Value Common, TemplatesSchema, Ports;
    std::unique_ptr<TProtocolConfedSchemasMap> Protocols;
    std::map<std::string, std::shared_ptr<TTemplateMap>> Dirs; // real templates, loaded once
    std::string Scratch;
};

static void Write(const std::string& fn, const std::string& text)
{
    std::ofstream f(fn);
    f << text;
}

static void RunMqtt(const Json::Value& sc,
                    PHandlerConfig cfg,
                    std::vector<bus::PBusPort>& ports,
                    vh::TOut& out)
{
    auto driver = std::make_shared<WBMQTT::TDeviceDriver>();
    auto emit = [&](Json::Value e) {
        // requests under way on any port come first
        for (auto& p: ports) {
            p->Flush();
        }
        e["t"] = (Json::Int64)vh::NowUs();
        out.Write(e);
    };
    driver->OnPub = [&](const WBMQTT::TDeviceDriver::TPub& p) {
        Json::Value e;
        e["o"] = "mq";
        e["k"] = std::string(1, p.Kind);
        e["dev"] = p.Device;
        e["ctl"] = p.Control;
        e["v"] = p.Value;
        e["e"] = p.Error;
        emit(e);
    };
    for (auto& p: ports) {
        p->Before = [&]() {
            for (auto& q: ports) {
                q->Flush();
            }
        };
    }
    auto serial = std::make_shared<TMQTTSerialDriver>(driver, cfg);
    Json::Value ctl;
    ctl["o"] = "ctls";
    ctl["list"] = Json::Value(Json::arrayValue);
    for (auto& d: driver->Devices) {
        for (auto& c: d.second->Controls) {
            auto& a = c.second->GetArgs();
            Json::Value x;
            x["dev"] = d.first;
            x["title"] = d.second->Args.Title;
            x["id"] = c.first;
            x["type"] = a.Type;
            x["order"] = a.Order;
            x["ro"] = a.Readonly;
            x["max"] = G(a.Max);
            x["min"] = G(a.Min);
            x["prec"] = G(a.Precision);
            x["units"] = a.Units;
            x["hidden"] = a.Hidden;
            x["durable"] = a.Durable;
            ctl["list"].append(x);
        }
    }
    emit(ctl);
    for (auto& a: sc["acts"]) {
        std::string k = a["a"].asString();
        vh::At(
            a["t"].asInt64(),
            [&, a, k]() {
                Json::Value e = a;
                e["o"] = "act";
                auto slave = [&]() -> bus::TSlave& { return *ports[a.get("p", 0).asInt()]->Slaves[a["d"].asInt()]; };
                if (k == "on") {
                    // a message of the user
                    e["o"] = "on";
                    auto d = driver->Devices.find(a["dev"].asString());
                    if (d != driver->Devices.end() && d->second->Controls.count(a["ctl"].asString())) {
                        e["t"] = (Json::Int64)vh::NowUs();
                        out.Write(e);
                        driver->OnValueHandler({d->second->Controls[a["ctl"].asString()], a["x"].asString()});
                    }
                    return;
                } else if (k == "dead") {
                    slave().Online = false;
                } else if (k == "live") {
                    slave().Online = true;
                } else if (k == "mem") {
                    for (Json::ArrayIndex i = 0; i < a["v"].size(); ++i) {
                        slave().Mem[{a["tab"].asInt(), a["ad"].asInt() + (int)i}] = a["v"][i].asInt();
                    }
                } else if (k == "fault") {
                    slave().Faults.push_back({a["n"].asInt(), a["kind"].asString(), a.get("c", 0).asInt(), a.get("wr", false).asBool(), a.get("ad", -1).asInt()});
                } else if (k == "failopen") {
                    ports[a.get("p", 0).asInt()]->FailOpen = a["v"].asBool();
                }
                e["t"] = (Json::Int64)vh::NowUs();
                out.Write(e);
            },
            true);
    }
    vh::OnWait = [&]() {
        for (auto& p: ports) {
            p->CycleUs = vh::NowUs();
        }
    };
    int64_t dur = sc["dur"].asInt64(), last = -1;
    auto before = out.Count;
    int guard = 0;
    while (vh::NowUs() < dur && out.Count - before < (size_t)sc.get("maxev", 4000).asInt()) {
        for (auto& p: ports) {
            ++p->Cy;
        }
        serial->LoopOnce();
        if (vh::NowUs() == last) {
            if (++guard > 200) {
                vh::AdvanceUs(1000);
                guard = 0;
            }
        } else {
            guard = 0;
            last = vh::NowUs();
        }
    }
    Json::Value e;
    e["o"] = "end";
    emit(e);
    vh::OnWait = nullptr;
    vh::ClearActions();
    for (auto& p: ports) {
        p->Opened = false;
        p->Before = nullptr;
    }
    driver->OnPub = nullptr;
    serial->ClearDevices();
}

static void RunScenario(const Json::Value& sc, vh::TOut& out, TWorld& w)
{
    vh::Start();
    Json::Value st = sc;
    st["o"] = "start";
    st["t"] = 0;
    for (auto k: {"acts", "files", "conf", "slaves"}) {
        st.removeMember(k);
    }
    out.Write(st);
    auto dir = w.Scratch + "/t";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir);
    std::shared_ptr<TTemplateMap> templates;
    std::vector<bus::PBusPort> ports;
    PHandlerConfig cfg;
    Json::Value e;
    e["o"] = "cfg";
    try {
        if (sc.isMember("tdir")) {
            auto& t = w.Dirs[sc["tdir"].asString()];
            if (!t) {
                t = std::make_shared<TTemplateMap>(w.TemplatesSchema, "");
                t->AddTemplatesDir(sc["tdir"].asString());
            }
            templates = t;
        } else {
            templates = std::make_shared<TTemplateMap>(w.TemplatesSchema, dir);
            for (auto& n: sc["files"].getMemberNames()) {
                Write(dir + "/" + n, sc["files"][n].asString());
            }
            templates->AddTemplatesDir(dir);
        }
        auto conf = w.Scratch + "/conf.json";
        Write(conf, sc["conf"].asString());
        auto factory = [&](const Json::Value& p, PRPCConfig) -> PFeaturePort {
            bool tcp = p.get("port_type", "serial").asString() == "modbus tcp";
            auto b = std::make_shared<bus::TBusPort>(out, tcp, 100);
            b->Name = p.isMember("path") ? p["path"].asString() : p["address"].asString() + ":" + p["port"].asString();
            int pi = ports.size();
            if (sc.isMember("slaves")) {
                int di = 0;
                for (auto& s: sc["slaves"][pi]) {
                    Json::Value d;
                    d["slave"] = s;
                    b->Slaves.push_back(bus::MakeSlave(d, di++, s["sid"].asInt()));
                }
            }
            ports.push_back(b);
            return std::make_shared<TFeaturePort>(b, tcp, p.get("connected_to_mge", false).asBool());
        };
        auto rpc = std::make_shared<TRPCConfig>();
        cfg = LoadConfig(conf, w.Factory, w.Common, *templates, rpc, w.Ports, *w.Protocols, factory);
        e["ok"] = true;
        e["mui"] = cfg->PublishParameters.Policy == WBMQTT::TPublishParameters::PublishOnlyOnChange ? -1
                   : cfg->PublishParameters.Policy == WBMQTT::TPublishParameters::PublishAll
                       ? 0
                       : (int)duration_cast<seconds>(cfg->PublishParameters.PublishUnchangedInterval).count();
        e["lim"] = (int)cfg->LowPriorityRegistersRateLimit;
        e["ports"] = Json::Value(Json::arrayValue);
        for (auto& p: cfg->PortConfigs) {
            Json::Value x;
            x["n"] = p->Port->GetDescription(false);
            x["delay"] = (int)p->RequestDelay.count();
            x["rl"] = p->ReadRateLimit ? (int)p->ReadRateLimit->count() : -1;
            x["mft"] = (int)p->OpenCloseSettings.MaxFailTime.count();
            x["mfc"] = p->OpenCloseSettings.ConnectionMaxFailCycles;
            x["resp"] = (int)(p->Port->GetMinimalResponseTimeout().count() / 1000);
            x["devs"] = Json::Value(Json::arrayValue);
            for (auto& d: p->Devices) {
                x["devs"].append(Device(*d));
            }
            e["ports"].append(x);
        }
    } catch (const std::exception& ex) {
        cfg.reset();
        e["ok"] = false;
        e["err"] = ex.what();
    }
    e["t"] = 0;
    out.Write(e);
    if (cfg && sc.isMember("dur")) {
        RunMqtt(sc, cfg, ports, out);
    }
}

int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    vh::TOut out;
    out.Open(argv[2]);
    TWorld w;
    w.Repo = argc > 3 ? argv[3] : "/repo";
    RegisterProtocols(w.Factory);
    w.Common = WBMQTT::JSON::Parse(w.Repo + "/wb-mqtt-serial-confed-common.schema.json");
    w.TemplatesSchema = LoadConfigTemplatesSchema(w.Repo + "/wb-mqtt-serial-device-template.schema.json", w.Common);
    w.Ports = WBMQTT::JSON::Parse(w.Repo + "/wb-mqtt-serial-ports.schema.json");
    w.Protocols = std::make_unique<TProtocolConfedSchemasMap>(w.Repo + "/protocols", w.Common);
    char tmp[] = "cfg.XXXXXX";
    w.Scratch = std::string(mkdtemp(tmp));
    std::string line;
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Json::Value sc = WBMQTT::JSON::Parse(ss);
        RunScenario(sc, out, w);
    }
    std::filesystem::remove_all(w.Scratch);
    return 0;
}
