// The real serial client with real Modbus devices on a simulated line, in virtual time.
// usage: client SCENARIOS.ndjson TRACE.ndjson
#include "devices/modbus_device.h"
#include "fakebus.h"
#include "port/feature_port.h"
#include "serial_client.h"
#include "serial_config.h"
#include "write_channel_serial_client_task.h"
using namespace std::chrono;


static Json::Value Words(const TRegisterValue& v)
{
    Json::Value r(Json::arrayValue);
    if (v.GetType() == TRegisterValue::ValueType::Integer) {
        uint64_t x = v.Get<uint64_t>();
        for (int i = 3; i >= 0; --i) {
            r.append((int)((x >> (16 * i)) & 0xFFFF));
        }
    } else if (v.GetType() == TRegisterValue::ValueType::String) {
        for (unsigned char c: v.Get<std::string>()) {
            r.append((int)c);
        }
    }
    return r;
}

static std::string Text(const Json::Value& v)
{
    return v.asString();
}

static void RunScenario(const Json::Value& sc, vh::TOut& out, TSerialDeviceFactory& factory)
{
    vh::Start();
    Json::Value st = sc;
    st["o"] = "start";
    st["t"] = 0;
    st.removeMember("acts");
    out.Write(st);

    bool tcp = sc.get("tcp", false).asBool();
    auto port = std::make_shared<bus::TBusPort>(out, tcp, sc.get("byteus", 100).asInt());
    port->ArbFF = sc.get("arbff", 0).asInt();
    if (sc.isMember("minresp")) {
        // taken by the feature port below
    }
    port->FailOpen = sc.get("failopen", false).asBool();
    auto fport = std::make_shared<TFeaturePort>(port, tcp, sc.get("mge", false).asBool());
    if (sc.isMember("resp")) {
        fport->SetMinimalResponseTimeout(milliseconds(sc["resp"].asInt()));
    }
    TPortOpenCloseLogic::TSettings oc;
    if (sc.isMember("oc")) {
        oc.MaxFailTime = milliseconds(sc["oc"]["fail"].asInt());
        oc.ConnectionMaxFailCycles = sc["oc"]["cyc"].asInt();
        oc.ReopenTimeout = milliseconds(sc["oc"]["reopen"].asInt());
    }
    size_t rl = sc.get("rl", 0).asInt();
    // 0 means "no limit" to the limiter
    auto client = std::make_shared<TSerialClient>(fport, oc, steady_clock::now, rl);
    std::vector<PSerialDevice> devs;
    std::vector<PRegister> regs;
    std::map<PRegister, int> idx;
    int di = 0;
    for (auto& d: sc["devs"]) {
        int sid = d["sid"].asInt();
        auto cfg = std::make_shared<TDeviceConfig>("dev" + std::to_string(di), std::to_string(sid), tcp ? "modbus-tcp" : "modbus");
        cfg->DeviceTimeout = milliseconds(d.get("tmo", 3000).asInt());
        cfg->DeviceMaxFailCycles = d.get("cyc", 2).asInt();
        cfg->RequestDelay = microseconds(d.get("rqdelay", 0).asInt());
        cfg->ResponseTimeout = milliseconds(d.get("resp", -1).asInt());
        cfg->FrameTimeout = milliseconds(d.get("frame", 20).asInt());
        cfg->MaxRegHole = d.get("hole", 0).asInt();
        cfg->MaxBitHole = d.get("bithole", 0).asInt();
        cfg->MaxReadRegisters = d.get("maxread", 1).asInt();
        cfg->MinReadRegisters = d.get("minread", 1).asInt();
        cfg->MaxWriteRegisters = d.get("maxwrite", 1).asInt();
        cfg->MinRequestInterval = milliseconds(d.get("minint", 0).asInt());
        cfg->MaxWriteFailTime = seconds(d.get("wrfail", 600).asInt());
        cfg->ContinuePollingOnIllegalModbusException = d.get("cont", false).asBool();
        cfg->PreserveSetupOrder = d.get("order", false).asBool();
        TModbusDeviceConfig mc;
        mc.CommonConfig = cfg;
        mc.EnableWbContinuousRead = d.get("cread", false).asBool();
        std::unique_ptr<Modbus::IModbusTraits> traits;
        if (tcp) {
            traits = std::make_unique<Modbus::TModbusTCPTraits>();
        } else {
            traits = std::make_unique<Modbus::TModbusRTUTraits>(d.get("fft", false).asBool());
        }
        auto dev =
            std::make_shared<TModbusDevice>(std::move(traits), mc, factory.GetProtocol(tcp ? "modbus-tcp" : "modbus"));
        dev->SetWbDevice(d.get("wb", false).asBool());
        auto makeReg = [](const Json::Value& r) {
            TRegisterDesc desc;
            if (r.get("acc", "rw").asString() != "wo") {
                desc.Address = std::make_shared<TUint32RegisterAddress>(r["a"].asInt());
            }
            if (r.isMember("wa")) {
                desc.WriteAddress = std::make_shared<TUint32RegisterAddress>(r["wa"].asInt());
            } else if (r.get("acc", "rw").asString() != "ro") {
                desc.WriteAddress = std::make_shared<TUint32RegisterAddress>(r["a"].asInt());
            }
            desc.DataOffset = r.get("off", 0).asInt();
            desc.DataWidth = r.get("w", 0).asInt();
            auto c = TRegisterConfig::Create(r["ty"].asInt(),
                                             desc,
                                             RegisterFormatFromName(r.get("fmt", "u16").asString()),
                                             1,
                                             0,
                                             0,
                                             (TRegisterConfig::TSporadicMode)r.get("sp", 0).asInt(),
                                             r.get("acc", "rw").asString() == "ro",
                                             "t" + std::to_string(r["ty"].asInt()),
                                             WordOrderFromName(r.get("wo", "big_endian").asString()),
                                             ByteOrderFromName(r.get("bo", "big_endian").asString()));
            if (r.isMember("per")) {
                c->ReadPeriod = milliseconds(r["per"].asInt());
            }
            if (r.isMember("lim")) {
                c->ReadRateLimit = milliseconds(r["lim"].asInt());
            }
            if (r.isMember("fw")) {
                c->FwVersion = r["fw"].asString();
            }
            if (r.isMember("errv")) {
                c->ErrorValue = TRegisterValue((uint64_t)r["errv"].asUInt());
            }
            if (r.isMember("unsv")) {
                c->UnsupportedValue = TRegisterValue((uint64_t)r["unsv"].asUInt());
            }
            return c;
        };
        bool sporadicOnly = true;
        for (auto& r: d["regs"]) {
            auto c = makeReg(r);
            auto reg = dev->AddRegister(c);
            if (c->SporadicMode != TRegisterConfig::TSporadicMode::ONLY_EVENTS &&
                c->AccessType != TRegisterConfig::EAccessType::WRITE_ONLY)
            {
                sporadicOnly = false;
            }
            idx[reg] = regs.size();
            regs.push_back(reg);
        }
        dev->SetSporadicOnly(sporadicOnly);
        for (auto& r: d["setup"]) {
            dev->AddSetupItem(std::make_shared<TDeviceSetupItemConfig>(r.get("n", "s").asString(), makeReg(r), r["x"].asString()));
        }
        port->Slaves.push_back(bus::MakeSlave(d, di, sid));
        int me = di;
        dev->AddOnConnectionStateChangedCallback([port, me](PSerialDevice x) {
            Json::Value e;
            e["o"] = "conn";
            e["dev"] = me;
            e["st"] = x->GetConnectionState() == TDeviceConnectionState::CONNECTED ? "C" : "D";
            port->Emit(e);
        });
        devs.push_back(dev);
        client->AddDevice(dev);
        ++di;
    }
    for (auto& d: sc["extra"]) {
        // slaves nobody polls
        port->Slaves.push_back(bus::MakeSlave(d, -1, d["sid"].asInt()));
    }
    auto pub = [&](const char* kind, PRegister r) {
        Json::Value e;
        e["o"] = "pub";
        e["k"] = kind;
        e["i"] = idx[r];
        e["re"] = r->GetErrorState().test(TRegister::ReadError);
        e["we"] = r->GetErrorState().test(TRegister::WriteError);
        e["pe"] = r->GetErrorState().test(TRegister::PollIntervalMissError);
        e["v"] = Words(r->GetValue());
        e["def"] = r->GetValue().GetType() != TRegisterValue::ValueType::Undefined;
        port->Emit(e);
    };
    client->SetReadCallback([&](PRegister r) { pub("r", r); });
    client->SetErrorCallback([&](PRegister r) { pub("e", r); });

    bool canSuspend = false;
    for (auto& a: sc["acts"]) {
        std::string k = a["a"].asString();
        bool inBus = k != "susp" && k != "res";
        vh::At(
            a["t"].asInt64(),
            [&, a, k]() {
                Json::Value e;
                e["o"] = "act";
                e["a"] = k;
                auto slave = [&]() -> bus::TSlave& { return *port->Slaves[a["d"].asInt()]; };
                for (auto& n: a.getMemberNames()) {
                    if (n != "a" && n != "t") {
                        e[n] = a[n];
                    }
                }
                if (k == "set") {
                    e["o"] = "set";
                    // what is under way was on the wire before
                    try {
                        client->SetTextValue(regs[a["i"].asInt()], Text(a["x"]));
                        e["ok"] = true;
                    } catch (const std::exception& ex) {
                        e["ok"] = false;
                    }
                } else if (k == "off") {
                    slave().Online = false;
                } else if (k == "on") {
                    slave().Online = true;
                } else if (k == "mem") {
                    slave().Mem[{a["tab"].asInt(), a["ad"].asInt()}] = a["v"].asInt();
                } else if (k == "unsup") {
                    if (a["v"].asBool()) {
                        slave().Unsup.insert({a["tab"].asInt(), a["ad"].asInt()});
                    } else {
                        slave().Unsup.erase({a["tab"].asInt(), a["ad"].asInt()});
                    }
                } else if (k == "fault") {
                    slave().Faults.push_back({a["n"].asInt(), a["kind"].asString(), a.get("c", 0).asInt(), a.get("wr", false).asBool(), a.get("ad", -1).asInt()});
                } else if (k == "evfault") {
                    static const char* mix[] = {"to", "lost", "crc", "", "lost"};
                    for (int i = 0; i < a["n"].asInt(); ++i) {
                        port->EvFaults.push_back(a["kind"].asString() == "mix" ? mix[i % 5] : a["kind"].asString());
                    }
                } else if (k == "failopen") {
                    port->FailOpen = a["v"].asBool();
                } else if (k == "failwrite") {
                    port->FailWrite = a["v"].asBool();
                } else if (k == "event") {
                    // the value changes, and an event is queued if it is enabled
                    auto& s = slave();
                    int ty = a["ty"].asInt(), ad = a["ad"].asInt(), n = a["vs"].size();
                    static const int tabs[] = {0, bus::COIL, bus::DISCR, bus::HOLD, bus::INPUT};
                    // vs: the value's words, the least significant first
                    for (int i = 0; i < n; ++i) {
                        s.Mem[{tabs[ty], ad + n - 1 - i}] = a["vs"][i].asInt();
                    }
                    e["q"] = false;
                    if (s.Online && s.Fast && (s.Enabled.count({ty, ad}) || a.get("force", false).asBool())) {
                        bus::TBytes data;
                        for (int i = 0; i < n; ++i) {
                            data.push_back(a["vs"][i].asInt() & 0xFF);
                            if (ty >= 3) {
                                data.push_back((a["vs"][i].asInt() >> 8) & 0xFF);
                            }
                        }
                        s.Queue.push_back({ty, ad, data});
                        e["q"] = true;
                    }
                } else if (k == "reboot") {
                    auto& s = slave();
                    s.Enabled.clear();
                    s.Queue.clear();
                    s.Sent.clear();
                    // (no confirmation sent before fits: EventsMC)
                    s.Flag = (s.Flag + 2) % 4;
                    if (s.Fast) {
                        s.Queue.push_back({15, 0, {}});
                    }
                } else if (k == "susp") {
                    // the driver suspends as an RPC would: from another thread, between transactions
                    Json::Value pre;
                    pre["o"] = "act";
                    pre["a"] = "susp0";
                    pre["d"] = a["d"];
                    port->Emit(pre);
                    try {
                        client->SuspendPoll(devs[a["d"].asInt()], steady_clock::now());
                        e["ok"] = true;
                    } catch (const std::exception& ex) {
                        e["ok"] = false;
                    }
                } else if (k == "res") {
                    try {
                        client->ResumePoll(devs[a["d"].asInt()]);
                        e["ok"] = true;
                    } catch (const std::exception& ex) {
                        e["ok"] = false;
                    }
                }
                // the exchange under way is finished later: written to the trace after this event
                if (!e.isMember("t")) {
                    e["t"] = (Json::Int64)vh::NowUs();
                }
                e["cy"] = port->Cy;
                out.Write(e);
            },
            inBus);
    }
    (void)canSuspend;
    vh::OnWait = [&]() { port->CycleUs = vh::NowUs(); };
    int64_t dur = sc["dur"].asInt64();
    size_t maxEvents = sc.get("maxev", 6000).asInt();
    auto before = out.Count;
    int64_t guard = 0, lastNow = -1;
    while (vh::NowUs() < dur && out.Count - before < maxEvents) {
        ++port->Cy;
        client->Cycle();
        if (vh::NowUs() == lastNow) {
            if (++guard > 200) {
                // time stands still: a busy loop
                Json::Value e;
                e["o"] = "spin";
                port->Emit(e);
                vh::AdvanceUs(1000);
                guard = 0;
            }
        } else {
            guard = 0;
            lastNow = vh::NowUs();
        }
    }
    Json::Value e;
    e["o"] = "end";
    e["full"] = vh::NowUs() >= dur;
    port->Emit(e);
    vh::OnWait = nullptr;
    vh::ClearActions();
    port->Opened = false;
}

int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    vh::TOut out;
    out.Open(argv[2]);
    TSerialDeviceFactory factory;
    RegisterProtocols(factory);
    std::string line;
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Json::Value sc = WBMQTT::JSON::Parse(ss);
        RunScenario(sc, out, factory);
    }
    return 0;
}
