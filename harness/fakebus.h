// A simulated RS-485 line (or Modbus TCP gateway) with Modbus slaves: a TPort whose peer is computed on the spot, in
// virtual time. Every exchange is recorded as one event with what was asked, what was really answered and when.
#pragma once
#include "port/port.h"
#include "serial_exc.h"
#include "vh.h"
#include <algorithm>
#include <deque>
#include <set>

namespace bus
{
    using TBytes = std::vector<uint8_t>;

    // Modbus checksum in the order it is sent; made here, so that the one under test is compared with another
    inline int Crc(const uint8_t* d, size_t n)
    {
        uint16_t c = 0xFFFF;
        for (size_t i = 0; i < n; ++i) {
            c ^= d[i];
            for (int b = 0; b < 8; ++b) {
                c = (c & 1) ? (c >> 1) ^ 0xA001 : c >> 1;
            }
        }
        return ((c & 0xFF) << 8) | (c >> 8);
    }
    // what a damaged checksum differs by
    inline int BadCrcMask()
    {
        static const int masks[] = {0x1001, 0x0001, 0x8000, 0x0100, 0xFFFF, 0x0080, 0x00FF, 0xFF00};
        return masks[(vh::NowUs() / 1000) % 8];
    }

    struct TEventRec
    {
        int Type, Id;
        TBytes Data;
    };
    struct TFault
    {
        int N;
        std::string Kind; // to exc crc sid fn short long lost exc0 busy
        int Code;
        bool OnlyWrites = false; // waits for the next write
        int Addr = -1;           // waits for a read or a write of this address, 100000 for enabling of events
    };
    enum TTab
    {
        HOLD = 3,
        INPUT = 4,
        COIL = 1,
        DISCR = 2
    };

    struct TSlave
    {
        int Sid = 1;
        int Dev = 0;
        bool Online = true;
        bool Fast = false; // understands Fast Modbus events
        bool Cont = false; // reads absent registers as 0xFFFE while register 114 holds 1
        int64_t LatUs = 1000;
        std::map<std::pair<int, int>, int> Mem; // (table, address) -> value; absent addresses read as (addr * 7 + table) & mask
        std::set<std::pair<int, int>> Unsup;    // illegal data address
        std::set<std::pair<int, int>> WrUnsup;  // illegal data address on write only
        std::vector<int> Window;                // if set: [lo, hi) addresses that exist at all
        std::deque<TFault> Faults;
        // Fast Modbus
        std::set<std::pair<int, int>> Enabled; // (event type, address)
        std::set<std::pair<int, int>> CanEvent;
        bool AllEvents = true;
        std::deque<TEventRec> Queue;
        std::vector<TEventRec> Sent;
        int Flag = 0;
        uint32_t Sn = 0;
        bool Scanned = false;

        int Get(int tab, int addr) const
        {
            auto it = Mem.find({tab, addr});
            if (it != Mem.end()) {
                return it->second;
            }
            return (tab == COIL || tab == DISCR) ? (addr & 1) : ((addr * 7 + tab) & 0xFFFF);
        }
        bool Lenient(int tab) const
        {
            auto it = Mem.find({HOLD, 114});
            return Cont && (tab == HOLD || tab == INPUT) && it != Mem.end() && it->second == 1;
        }
        bool Has(int tab, int addr) const
        {
            return !Unsup.count({tab, addr}) && (Window.empty() || (addr >= Window[0] && addr < Window[1]));
        }
    };

    inline void Put16(TBytes& b, int v)
    {
        b.push_back((v >> 8) & 0xFF);
        b.push_back(v & 0xFF);
    }
    inline Json::Value Arr(const std::vector<int>& v)
    {
        Json::Value r(Json::arrayValue);
        for (auto i: v)
            r.append(i);
        return r;
    }
    inline Json::Value ArrB(const TBytes& v)
    {
        return Arr(std::vector<int>(v.begin(), v.end()));
    }

    class TBusPort: public TPort
    {
    public:
        vh::TOut& Out;
        bool Tcp;
        int64_t ByteUs;
        std::vector<std::shared_ptr<TSlave>> Slaves;
        bool Opened = false, FailOpen = false, FailWrite = false;
        bool LogRaw = false;
        int64_t LastIo = 0;
        int64_t CycleUs = 0; // when the client last stopped waiting
        int Cy = 0;          // how many times the client was called
        int Port = -1;       // number of the port, told if there are several
        std::string Settings;
        std::string Name = "bus";
        Json::Value Pending;
        std::function<void(const Json::Value&)> OnEvent;
        std::function<void()> Before; // something is going to happen on this port

        TBusPort(vh::TOut& out, bool tcp, int64_t byteUs): Out(out), Tcp(tcp), ByteUs(byteUs)
        {}

        void Emit(Json::Value v)
        {
            if (Before) {
                Before();
            }
            Flush();
            if (!v.isMember("t")) {
                v["t"] = (Json::Int64)vh::NowUs();
            }
            v["cy"] = Cy;
            if (Port >= 0) {
                v["p"] = Port;
            }
            Out.Write(v);
        }
        void Flush()
        {
            if (!Pending.isNull()) {
                Json::Value p;
                std::swap(p, Pending);
                p["t2"] = (Json::Int64)LastIo;
                Out.Write(p);
                if (OnEvent) {
                    OnEvent(p);
                }
            }
        }

        void Open() override
        {
            Json::Value e;
            e["o"] = "open";
            e["ok"] = !FailOpen;
            Emit(e);
            if (FailOpen) {
                throw TSerialDeviceException("can't open the port");
            }
            Opened = true;
            Rx.clear();
        }
        void Close() override
        {
            if (Opened) {
                Json::Value e;
                e["o"] = "close";
                Emit(e);
            }
            Opened = false;
        }
        bool IsOpen() const override
        {
            return Opened;
        }
        void CheckPortOpen() const override
        {
            if (!Opened)
                throw TSerialDeviceException("port not open");
        }
        std::chrono::microseconds GetSendTimeBytes(double n) const override
        {
            return std::chrono::microseconds((int64_t)std::ceil(n * ByteUs));
        }
        std::chrono::microseconds GetSendTimeBits(size_t n) const override
        {
            return std::chrono::microseconds((int64_t)std::ceil(n * ByteUs / 11.0));
        }
        std::string GetDescription(bool) const override
        {
            return Name;
        }
        void ApplySerialPortSettings(const TSerialPortConnectionSettings& s) override
        {
            Settings =
                std::to_string(s.BaudRate) + s.Parity + std::to_string(s.DataBits) + std::to_string(s.StopBits);
            Json::Value e;
            e["o"] = "apply";
            e["s"] = Settings;
            Emit(e);
        }
        void ResetSerialPortSettings() override
        {
            Settings.clear();
            Json::Value e;
            e["o"] = "reset";
            Emit(e);
        }
        void SleepSinceLastInteraction(const std::chrono::microseconds& us) override
        {
            auto now = vh::NowUs();
            if (LastIo + us.count() > now) {
                vh::AdvanceUs(LastIo + us.count() - now);
            }
        }
        void SkipNoise() override
        {
            Rx.clear();
            vh::AdvanceUs(1000);
        }
        uint8_t ReadByte(const std::chrono::microseconds& timeout) override
        {
            uint8_t b;
            ReadFrame(&b, 1, timeout, timeout, 0);
            return b;
        }

        void WriteBytes(const uint8_t* buf, int count) override
        {
            if (Before) {
                Before();
            }
            Flush();
            Rx.clear();
            if (!Opened) {
                throw TSerialDeviceException("port not open");
            }
            int64_t t = vh::NowUs();
            Json::Value e;
            e["t"] = (Json::Int64)t;
            e["tc"] = (Json::Int64)CycleUs;
            e["cy"] = Cy;
            e["dev"] = -1;
            if (Port >= 0) {
                e["p"] = Port;
            }
            if (!Settings.empty()) {
                e["set"] = Settings;
            }
            if (FailWrite) {
                TBytes dummy;
                Decode(TBytes(buf, buf + count), e, nullptr);
                e["r"] = "io";
                Pending = e;
                LastIo = vh::NowUs();
                throw TSerialDeviceErrnoException("serial write failed: ", EIO);
            }
            vh::AdvanceUs(count * ByteUs);
            LastIo = vh::NowUs();
            RespLat = 0;
            Decode(TBytes(buf, buf + count), e, &Rx);
            if (LogRaw) {
                e["raw"] = ArrB(TBytes(buf, buf + count));
                e["rr"] = ArrB(TBytes(Rx.begin(), Rx.end()));
            }
            Pending = e;
        }

        TReadFrameResult ReadFrame(uint8_t* buf,
                                   size_t count,
                                   const std::chrono::microseconds& responseTimeout,
                                   const std::chrono::microseconds& frameTimeout,
                                   TFrameCompletePred pred) override
        {
            CheckPortOpen();
            TReadFrameResult res;
            if (!count) {
                return res;
            }
            if (Rx.empty() || RespLat > responseTimeout.count()) {
                // what comes later than the timeout is lost: the next request clears it
                Rx.clear();
                vh::AdvanceUs(responseTimeout.count());
                if (!Pending.isNull()) {
                    if (Pending["r"].asString() != "to") {
                        Pending["late"] = true;
                    }
                }
                throw TResponseTimeoutException();
            }
            vh::AdvanceUs(RespLat);
            res.ResponseTime = std::chrono::microseconds(RespLat);
            RespLat = 0;
            while (res.Count < count && !Rx.empty()) {
                if (pred && pred(buf, res.Count)) {
                    break;
                }
                buf[res.Count++] = Rx.front();
                Rx.pop_front();
                vh::AdvanceUs(ByteUs);
            }
            if (res.Count < count && !(pred && pred(buf, res.Count))) {
                vh::AdvanceUs(frameTimeout.count());
            }
            LastIo = vh::NowUs();
            return res;
        }

    private:
        std::deque<uint8_t> Rx;
        int64_t RespLat = 0;

        void Respond(std::deque<uint8_t>* rx, const TBytes& body, int sid, const TBytes& req, bool badCrc, int tid = -1)
        {
            if (!rx)
                return;
            TBytes b;
            if (Tcp) {
                b = {req[0], req[1], 0, 0};
                if (tid >= 0) {
                    b[0] = tid >> 8;
                    b[1] = tid;
                }
                if (badCrc) {
                    b[0] ^= 0x5a;
                }
                Put16(b, body.size() + 1);
                b.push_back(sid);
                b.insert(b.end(), body.begin(), body.end());
            } else {
                b.push_back(sid);
                b.insert(b.end(), body.begin(), body.end());
                Put16(b, Crc(b.data(), b.size()) ^ (badCrc ? BadCrcMask() : 0));
            }
            rx->insert(rx->end(), b.begin(), b.end());
        }

        void Decode(const TBytes& req, Json::Value& e, std::deque<uint8_t>* rx)
        {
            int sid;
            TBytes p;
            bool ok = true;
            if (Tcp) {
                ok = req.size() >= 8 && ((req[4] << 8) | req[5]) == (int)req.size() - 6 && req[2] == 0 && req[3] == 0;
                if (ok) {
                    sid = req[6];
                    p.assign(req.begin() + 7, req.end());
                    e["tid"] = (req[0] << 8) | req[1];
                }
            } else {
                ok = req.size() >= 4;
                if (ok) {
                    int crc = (req[req.size() - 2] << 8) | req[req.size() - 1];
                    ok = crc == Crc(req.data(), req.size() - 2);
                    sid = req[0];
                    p.assign(req.begin() + 1, req.end() - 2);
                }
            }
            if (!ok) {
                e["o"] = "junk";
                e["r"] = "to";
                e["raw"] = ArrB(req);
                return;
            }
            if ((sid == 0xFD) && p.size() > 1 && (p[0] == 0x46 || p[0] == 0x60)) {
                Fast(sid, p, req, e, rx);
                return;
            }
            if (p[0] == 0x46 && p.size() > 2 && p[1] == 0x18) {
                EnableEvents(sid, p, req, e, rx);
                return;
            }
            Standard(sid, p, req, e, rx, false);
        }

        TSlave* Find(int sid)
        {
            for (auto& s: Slaves) {
                if (s->Sid == sid && s->Online) {
                    return s.get();
                }
            }
            return nullptr;
        }
        TFault NextFault(TSlave* s, int fn, int addr = -1, int count = 0)
        {
            if (s) {
                bool write = fn == 5 || fn == 6 || fn == 15 || fn == 16;
                for (auto it = s->Faults.begin(); it != s->Faults.end(); ++it) {
                    if (it->OnlyWrites && !write) {
                        continue;
                    }
                    if (it->Addr >= 0 && (it->Addr < addr || it->Addr >= addr + count)) {
                        continue;
                    }
                    auto f = *it;
                    if (--it->N <= 0) {
                        s->Faults.erase(it);
                    }
                    return f;
                }
            }
            return {0, "", 0};
        }

        // returns the response PDU; fills what the request was and what the true answer is
        void Standard(int sid, const TBytes& p, const TBytes& req, Json::Value& e, std::deque<uint8_t>* rx, bool inner)
        {
            int fn = p[0];
            e["o"] = "req";
            e["s"] = sid;
            e["f"] = fn;
            auto* s = Find(sid);
            for (auto& x: Slaves) {
                if (x->Sid == sid) {
                    e["dev"] = x->Dev;
                }
            }
            int fa = p.size() >= 5 ? p[1] * 256 + p[2] : -1;
            int fc = fn == 5 || fn == 6 ? 1 : p.size() >= 5 ? p[3] * 256 + p[4] : 0;
            TFault f = rx ? NextFault(s, fn, fa, fc) : TFault{0, "", 0};
            int addr = p.size() >= 3 ? (p[1] << 8) | p[2] : -1;
            int cnt = 1;
            std::vector<int> data;
            int tab = 0;
            bool write = false, malformed = false;
            switch (fn) {
                case 1:
                case 2:
                case 3:
                case 4:
                    malformed = p.size() != 5;
                    if (!malformed) {
                        cnt = (p[3] << 8) | p[4];
                        tab = fn == 1 ? COIL : fn == 2 ? DISCR : fn == 3 ? HOLD : INPUT;
                        malformed = cnt == 0 || cnt > (fn <= 2 ? 2000 : 125);
                    }
                    break;
                case 5:
                case 6:
                    write = true;
                    malformed = p.size() != 5;
                    tab = fn == 5 ? COIL : HOLD;
                    if (!malformed) {
                        int v = (p[3] << 8) | p[4];
                        if (fn == 5) {
                            malformed = v != 0xFF00 && v != 0;
                            v = v ? 1 : 0;
                        }
                        data.push_back(v);
                    }
                    break;
                case 16:
                    write = true;
                    tab = HOLD;
                    malformed = p.size() < 6;
                    if (!malformed) {
                        cnt = (p[3] << 8) | p[4];
                        malformed = cnt == 0 || cnt > 123 || p[5] != cnt * 2 || (int)p.size() != 6 + cnt * 2;
                        for (int i = 0; !malformed && i < cnt; ++i) {
                            data.push_back((p[6 + i * 2] << 8) | p[7 + i * 2]);
                        }
                    }
                    break;
                case 15:
                    write = true;
                    tab = COIL;
                    malformed = p.size() < 6;
                    if (!malformed) {
                        cnt = (p[3] << 8) | p[4];
                        malformed = cnt == 0 || p[5] != (cnt + 7) / 8 || (int)p.size() != 6 + (cnt + 7) / 8;
                        for (int i = 0; !malformed && i < cnt; ++i) {
                            data.push_back((p[6 + i / 8] >> (i % 8)) & 1);
                        }
                    }
                    break;
                default:
                    malformed = true;
            }
            e["a"] = addr;
            e["n"] = cnt;
            e["d"] = Arr(data);
            e["mal"] = malformed;
            e["c"] = 0;
            e["v"] = Json::Value(Json::arrayValue);
            e["ov"] = Json::Value(Json::arrayValue);
            e["late"] = false;
            e["done"] = false;
            e["fault"] = f.Kind;
            if (!s || f.Kind == "to") {
                e["r"] = "to";
                return;
            }
            TBytes r;
            int exc = 0;
            bool oneWr = false;
            if (malformed) {
                exc = 3;
            } else {
                for (int i = 0; i < cnt; ++i) {
                    if ((!s->Has(tab, addr + i) && (write || !s->Lenient(tab))) || (write && s->WrUnsup.count({tab, addr + i}))) {
                        exc = 2;
                    }
                }
            }
            if (f.Kind == "exc") {
                exc = f.Code;
            }
            std::vector<int> vals;
            Json::Value ov(Json::arrayValue);
            if (!exc && f.Kind != "exc0") {
                r.push_back(fn);
                if (write) {
                    for (int i = 0; i < cnt; ++i) {
                        ov.append(s->Get(tab, addr + i));
                        s->Mem[{tab, addr + i}] = data[i];
                    }
                    r.insert(r.end(), p.begin() + 1, p.begin() + 5);
                } else {
                    for (int i = 0; i < cnt; ++i) {
                        vals.push_back(s->Has(tab, addr + i) ? s->Get(tab, addr + i) : 0xFFFE);
                    }
                    int n = cnt;
                    if (f.Kind == "short") {
                        n = std::max(fn <= 2 ? cnt - 8 : cnt - 1, 0);
                    } else if (f.Kind == "long") {
                        n = fn <= 2 ? cnt + 8 : cnt + 1;
                    }
                    if (fn <= 2) {
                        r.push_back((n + 7) / 8);
                        for (int i = 0; i < n; i += 8) {
                            int b = 0;
                            for (int k = 0; k < 8 && i + k < cnt; ++k) {
                                b |= vals[i + k] << k;
                            }
                            r.push_back(b);
                        }
                    } else {
                        r.push_back(n * 2);
                        for (int i = 0; i < n; ++i) {
                            Put16(r, i < cnt ? vals[i] : 0x5A5A);
                        }
                    }
                }
            } else {
                r.push_back(fn | 0x80);
                r.push_back(f.Kind == "exc0" ? 0 : exc);
            }
            e["ov"] = ov;
            std::string res = exc ? "exc" : "ok";
            int rsid = sid;
            bool badCrc = false;
            if (f.Kind == "crc") {
                badCrc = true;
                res = Tcp ? "to" : "bad";
            } else if (f.Kind == "sid") {
                rsid = (sid % 247) + 1;
                res = "bad";
            } else if (f.Kind == "fn") {
                r[0] = fn == 3 ? 4 : fn == 4 ? 3 : fn == 6 ? 16 : fn == 16 ? 6 : fn == 1 ? 2 : fn == 2 ? 1 : 15;
                res = "bad";
            } else if (f.Kind == "long" && Tcp) {
                // more than requested: what was requested is there
            } else if (f.Kind == "short" || f.Kind == "long") {
                if (!exc && !write) {
                    res = "bad";
                }
            } else if (f.Kind == "exc0") {
                res = "bad";
            } else if (f.Kind == "lost") {
                e["r"] = "to";
                e["done"] = !exc;
                return;
            } else if (f.Kind == "cut") {
                r.resize(std::max<size_t>(1, r.size() - 1));
                res = "bad";
            } else if (f.Kind == "stale" && Tcp) {
                // an answer to some other request first
                TBytes other = {(uint8_t)fn, 2, 0xDE, 0xAD};
                int tid = (req[0] << 8) | req[1];
                Respond(rx, other, sid, req, false, (f.Code == 400 ? tid - 1 : f.Code == 700 ? tid ^ 0x80 : tid ^ 0x5a00) & 0xFFFF);
            }
            e["r"] = res;
            e["c"] = exc;
            e["done"] = write && !exc;
            if (res == "ok") {
                e["v"] = Arr(vals);
            }
            RespLat = s->LatUs + (f.Kind == "slow" ? f.Code * 1000 : 0);
            Respond(rx, r, rsid, req, badCrc);
            if (f.Kind == "cut" && !Tcp && rx) {
                // a frame cut short: its check sum is lost too
                rx->pop_back();
            }
            (void)oneWr;
            (void)inner;
        }

        void Fast(int sid, const TBytes& p, const TBytes& req, Json::Value& e, std::deque<uint8_t>* rx)
        {
            if (p[1] == 0x10 && p.size() == 6) {
                e["o"] = "evr";
                e["start"] = p[2];
                e["max"] = p[3];
                e["as"] = p[4];
                e["af"] = p[5];
                e["r"] = "to";
                e["s"] = 0;
                e["fl"] = 0;
                e["ev"] = Json::Value(Json::arrayValue);
                std::string kind = !EvFaults.empty() ? EvFaults.front() : "";
                if (rx && !EvFaults.empty()) {
                    EvFaults.pop_front();
                }
                if (kind == "to") {
                    // the request did not get through
                    return;
                }
                std::vector<TSlave*> fast;
                for (auto& s: Slaves) {
                    if (s->Online && s->Fast) {
                        fast.push_back(s.get());
                    }
                }
                if (fast.empty()) {
                    return;
                }
                std::sort(fast.begin(), fast.end(), [](auto a, auto b) { return a->Sid < b->Sid; });
                for (auto s: fast) {
                    if (s->Sid == p[4] && !s->Sent.empty() && s->Flag == p[5]) {
                        s->Sent.clear();
                        s->Flag ^= 1;
                    }
                }
                RespLat = 12 * 13 * ByteUs / 11;
                for (auto s: fast) {
                    if (s->Sid < p[2] || (s->Queue.empty() && s->Sent.empty())) {
                        continue;
                    }
                    // what was not confirmed is sent again; the packet may grow
                    int size = 0;
                    for (auto& r: s->Sent) {
                        size += 4 + r.Data.size();
                    }
                    while (!s->Queue.empty() && size + 4 + (int)s->Queue.front().Data.size() <= p[3]) {
                        size += 4 + s->Queue.front().Data.size();
                        s->Sent.push_back(s->Queue.front());
                        s->Queue.pop_front();
                    }
                    if (s->Sent.empty()) {
                        continue;
                    }
                    TBytes r = {0x46, 0x11, (uint8_t)s->Flag, (uint8_t)s->Sent.size(), (uint8_t)size};
                    Json::Value evs(Json::arrayValue);
                    for (auto& x: s->Sent) {
                        r.push_back(x.Data.size());
                        r.push_back(x.Type);
                        Put16(r, x.Id);
                        r.insert(r.end(), x.Data.begin(), x.Data.end());
                        Json::Value j;
                        j["ty"] = x.Type;
                        j["a"] = x.Id;
                        j["d"] = ArrB(x.Data);
                        evs.append(j);
                    }
                    bool bad = kind == "crc";
                    e["s"] = s->Sid;
                    e["fl"] = s->Flag;
                    e["ev"] = evs;
                    if (kind == "lost") {
                        e["r"] = "to";
                        return;
                    }
                    e["r"] = bad ? "bad" : "ev";
                    Respond(rx, r, s->Sid, req, bad);
                    Arbitration(rx);
                    return;
                }
                e["r"] = kind == "crc" ? "bad" : kind == "lost" ? "to" : "none";
                if (kind != "lost") {
                    Respond(rx, {0x46, 0x12}, 0xFD, req, kind == "crc");
                    Arbitration(rx);
                }
                return;
            }
            if (p.size() == 2 && (p[1] == 1 || p[1] == 2)) {
                e["o"] = "scan";
                e["cmd"] = p[0];
                e["sub"] = p[1];
                e["r"] = "to";
                std::string kind = !EvFaults.empty() ? EvFaults.front() : "";
                if (rx && !EvFaults.empty()) {
                    EvFaults.pop_front();
                }
                e["fault"] = kind;
                if (kind == "to") {
                    return;
                }
                std::vector<TSlave*> fast;
                for (auto& s: Slaves) {
                    if (s->Online && s->Fast) {
                        fast.push_back(s.get());
                        if (p[1] == 1) {
                            s->Scanned = false;
                        }
                    }
                }
                if (fast.empty()) {
                    return;
                }
                std::sort(fast.begin(), fast.end(), [](auto a, auto b) { return a->Sn < b->Sn; });
                RespLat = 34 * 13 * ByteUs / 11;
                for (auto s: fast) {
                    if (!s->Scanned) {
                        s->Scanned = true;
                        TBytes r = {p[0],
                                    3,
                                    (uint8_t)(s->Sn >> 24),
                                    (uint8_t)(s->Sn >> 16),
                                    (uint8_t)(s->Sn >> 8),
                                    (uint8_t)s->Sn,
                                    (uint8_t)s->Sid};
                        e["r"] = kind == "crc" ? "bad" : kind == "lost" ? "to" : "found";
                        e["snh"] = (int)(s->Sn >> 16);
                        e["snl"] = (int)(s->Sn & 0xFFFF);
                        e["s"] = s->Sid;
                        if (kind == "lost") {
                            return;
                        }
                        Respond(rx, r, sid, req, kind == "crc");
                        Arbitration(rx);
                        return;
                    }
                }
                e["r"] = kind == "crc" ? "bad" : kind == "lost" ? "to" : "nomore";
                if (kind != "lost") {
                    Respond(rx, {p[0], 4}, sid, req, kind == "crc");
                    Arbitration(rx);
                }
                return;
            }
            if (p.size() > 7 && p[1] == 8) {
                // a standard request addressed by serial number
                uint32_t sn = (p[2] << 24) | (p[3] << 16) | (p[4] << 8) | p[5];
                e["snh"] = (int)(sn >> 16);
                e["snl"] = (int)(sn & 0xFFFF);
                e["cmd"] = p[0];
                TBytes inner(p.begin() + 6, p.end());
                for (auto& s: Slaves) {
                    if (s->Online && s->Fast && s->Sn == sn) {
                        std::deque<uint8_t> tmp;
                        TBytes sub = req;
                        Standard(s->Sid, inner, req, e, rx ? &tmp : nullptr, true);
                        e["bysn"] = true;
                        if (!rx || tmp.empty()) {
                            return;
                        }
                        TBytes t(tmp.begin(), tmp.end());
                        TBytes pdu = Tcp ? TBytes(t.begin() + 7, t.end()) : TBytes(t.begin() + 1, t.end() - 2);
                        TBytes r = {p[0], 9, p[2], p[3], p[4], p[5]};
                        r.insert(r.end(), pdu.begin(), pdu.end());
                        Respond(rx, r, sid, req, e["fault"].asString() == "crc");
                        return;
                    }
                }
                e["o"] = "req";
                e["bysn"] = true;
                e["f"] = inner[0];
                e["s"] = -1;
                e["a"] = inner.size() > 2 ? (inner[1] << 8) | inner[2] : -1;
                e["n"] = inner.size() > 4 ? (inner[3] << 8) | inner[4] : 0;
                e["d"] = Json::Value(Json::arrayValue);
                e["v"] = Json::Value(Json::arrayValue);
                e["c"] = 0;
                e["mal"] = false;
                e["fault"] = "";
                e["r"] = "to";
                return;
            }
            e["o"] = "junk";
            e["r"] = "to";
            e["raw"] = ArrB(req);
        }
        // the arbitration window is seen by the master as 0xFF bytes before the answer
        void Arbitration(std::deque<uint8_t>* rx)
        {
            if (rx && !Tcp && ArbFF) {
                rx->insert(rx->begin(), ArbFF, 0xFF);
            }
        }

        void EnableEvents(int sid, const TBytes& p, const TBytes& req, Json::Value& e, std::deque<uint8_t>* rx)
        {
            e["o"] = "evn";
            e["s"] = sid;
            e["r"] = "to";
            e["bits"] = Json::Value(Json::arrayValue);
            e["c"] = 0;
            for (auto& x: Slaves) {
                if (x->Sid == sid) {
                    e["dev"] = x->Dev;
                }
            }
            Json::Value items(Json::arrayValue);
            size_t pos = 3;
            bool mal = p[2] != p.size() - 3;
            std::vector<std::vector<int>> recs;
            TBytes bits;
            auto* s = Find(sid);
            TFault f = rx ? NextFault(s, 3, 100000, 1) : TFault{0, "", 0};
            e["fault"] = f.Kind;
            Json::Value jb(Json::arrayValue);
            std::set<std::pair<int, int>> on, off;
            while (!mal && pos < p.size()) {
                if (pos + 4 > p.size() || pos + 4 + p[pos + 3] > p.size() || p[pos + 3] == 0) {
                    mal = true;
                    break;
                }
                int type = p[pos], addr = (p[pos + 1] << 8) | p[pos + 2], n = p[pos + 3];
                uint8_t b = 0;
                for (int i = 0; i < n; ++i) {
                    Json::Value it;
                    it["ty"] = type;
                    it["a"] = addr + i;
                    it["p"] = p[pos + 4 + i];
                    items.append(it);
                    bool en = s && p[pos + 4 + i] != 0 && (s->AllEvents || s->CanEvent.count({type, addr + i}));
                    if (type == 15 && p[pos + 4 + i] == 0) {
                        en = false;
                    }
                    (en ? on : off).insert({type, addr + i});
                    if (en) {
                        b |= 1 << (i % 8);
                    }
                    it.removeMember("p");
                    it["b"] = en ? 1 : 0;
                    jb.append(it);
                    if (i % 8 == 7 || i == n - 1) {
                        bits.push_back(b);
                        b = 0;
                    }
                }
                pos += 4 + n;
            }
            e["items"] = items;
            e["mal"] = mal;
            e["size"] = (int)p.size();
            if (!s || f.Kind == "to" || mal) {
                return;
            }
            RespLat = s->LatUs;
            TBytes r;
            if (f.Kind == "exc" || !s->Fast) {
                int c = f.Kind == "exc" ? f.Code : 1;
                r = {0x46 | 0x80, (uint8_t)c};
                e["r"] = "exc";
                e["c"] = c;
                Respond(rx, r, sid, req, false);
                return;
            }
            for (auto& x: on)
                s->Enabled.insert(x);
            for (auto& x: off)
                s->Enabled.erase(x);
            r = {0x46, 0x18, (uint8_t)bits.size()};
            r.insert(r.end(), bits.begin(), bits.end());
            if (f.Kind == "lost") {
                return;
            }
            if (f.Kind == "short") {
                r[2] -= 1;
                r.pop_back();
            }
            if (f.Kind == "fn") {
                r[1] = 0x17;
            }
            bool bad = f.Kind == "crc";
            int rsid = f.Kind == "sid" ? sid + 1 : sid;
            e["r"] = (bad || rsid != sid || f.Kind == "short" || f.Kind == "fn") ? "bad" : "ok";
            if (e["r"].asString() == "ok") {
                e["bits"] = jb;
            }
            Respond(rx, r, rsid, req, bad);
        }

    public:
        std::deque<std::string> EvFaults; // what happens to the next event requests: "" to lost crc
        int ArbFF = 0;
    };
    typedef std::shared_ptr<TBusPort> PBusPort;

    inline std::shared_ptr<TSlave> MakeSlave(const Json::Value& d, int dev, int sid)
    {
        auto s = std::make_shared<TSlave>();
        s->Sid = sid;
        s->Dev = dev;
        const auto& j = d["slave"];
        s->LatUs = j.get("lat", 1000).asInt();
        s->Fast = j.get("fast", false).asBool();
        s->Cont = j.get("cont", false).asBool();
        s->Online = j.get("online", true).asBool();
        s->Sn = j.get("sn", 0).asUInt();
        for (auto& m: j["mem"]) {
            s->Mem[{m[0].asInt(), m[1].asInt()}] = m[2].asInt();
        }
        for (auto& m: j["unsup"]) {
            s->Unsup.insert({m[0].asInt(), m[1].asInt()});
        }
        for (auto& m: j["wrunsup"]) {
            s->WrUnsup.insert({m[0].asInt(), m[1].asInt()});
        }
        if (j.isMember("window")) {
            s->Window = {j["window"][0].asInt(), j["window"][1].asInt()};
        }
        if (j.isMember("canev")) {
            s->AllEvents = false;
            for (auto& m: j["canev"]) {
                s->CanEvent.insert({m[0].asInt(), m[1].asInt()});
            }
        }
        return s;
    }
}
