// Stand-in for the libwbmqtt1 driver: keeps the published values and errors and reports every publication
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "driver_args.h"
#include "rpc.h"
namespace WBMQTT
{
    class TDeviceDriver;
    class TDevice;
    class TDriverTx;
    typedef std::shared_ptr<TDeviceDriver> PDeviceDriver;
    typedef std::shared_ptr<TDevice> PDevice;
    typedef std::unique_ptr<TDriverTx> PDriverTx;

    template<class T> struct TFuture
    {
        T V;
        T GetValue()
        {
            return V;
        }
        void Sync()
        {}
        void Wait()
        {}
    };
    struct TVoidFuture
    {
        void Sync()
        {}
        void Wait()
        {}
        void GetValue()
        {}
    };

    class TControl
    {
        std::weak_ptr<TDevice> Dev;
        TControlArgs Args;

    public:
        std::string Value, ErrorText;
        TControl(PDevice d, const TControlArgs& a): Dev(d), Args(a)
        {}
        const std::string& GetId() const
        {
            return Args.Id;
        }
        PDevice GetDevice() const
        {
            return Dev.lock();
        }
        const TUserData& GetUserData() const
        {
            return Args.UserData;
        }
        const TControlArgs& GetArgs() const
        {
            return Args;
        }
        TVoidFuture UpdateRawValueAndError(const PDriverTx& tx, const std::string& v, const std::string& e);
        TVoidFuture SetError(const PDriverTx& tx, const std::string& e);
    };
    typedef std::shared_ptr<TControl> PControl;

    struct TControlOnValueEvent
    {
        PControl Control;
        std::string RawValue;
    };

    class TDevice: public std::enable_shared_from_this<TDevice>
    {
    public:
        TDeviceDriver* Driver;
        TLocalDeviceArgs Args;
        std::string ErrorText;
        std::map<std::string, PControl> Controls;
        virtual ~TDevice() = default;
        const std::string& GetId() const
        {
            return Args.Id;
        }
        TFuture<PControl> CreateControl(const PDriverTx&, const TControlArgs& a)
        {
            auto c = std::make_shared<TControl>(shared_from_this(), a);
            Controls[a.Id] = c;
            return {c};
        }
        TVoidFuture RemoveUnusedControls(const PDriverTx&)
        {
            return {};
        }
        TVoidFuture SetError(const PDriverTx&, const std::string& e);
    };
    class TLocalDevice: public TDevice
    {};
    typedef std::shared_ptr<TLocalDevice> PLocalDevice;

    class TDriverTx
    {
        TDeviceDriver* D;

    public:
        TDriverTx(TDeviceDriver* d): D(d)
        {}
        TFuture<PLocalDevice> CreateDevice(const TLocalDeviceArgs& a);
        PDevice GetDevice(const std::string& id);
        TVoidFuture RemoveDeviceById(const std::string& id);
    };

    class TDeviceDriver
    {
    public:
        struct TPub
        {
            char Kind; // 'v' value and error, 'e' control error, 'd' device error
            std::string Device, Control, Value, Error;
        };
        std::function<void(const TPub&)> OnPub;
        std::map<std::string, PLocalDevice> Devices;
        std::function<void(const TControlOnValueEvent&)> OnValueHandler;
        PDriverTx BeginTx()
        {
            return std::make_unique<TDriverTx>(this);
        }
        template<class E> void On(std::function<void(const E&)> h)
        {
            OnValueHandler = h;
        }
    };

    inline TVoidFuture TControl::UpdateRawValueAndError(const PDriverTx&, const std::string& v, const std::string& e)
    {
        Value = v;
        ErrorText = e;
        auto d = Dev.lock();
        if (d && d->Driver->OnPub)
            d->Driver->OnPub({'v', d->GetId(), GetId(), v, e});
        return {};
    }
    inline TVoidFuture TControl::SetError(const PDriverTx&, const std::string& e)
    {
        ErrorText = e;
        auto d = Dev.lock();
        if (d && d->Driver->OnPub)
            d->Driver->OnPub({'e', d->GetId(), GetId(), "", e});
        return {};
    }
    inline TVoidFuture TDevice::SetError(const PDriverTx&, const std::string& e)
    {
        ErrorText = e;
        if (Driver->OnPub)
            Driver->OnPub({'d', GetId(), "", "", e});
        return {};
    }
    inline TFuture<PLocalDevice> TDriverTx::CreateDevice(const TLocalDeviceArgs& a)
    {
        auto d = std::make_shared<TLocalDevice>();
        d->Driver = D;
        d->Args = a;
        D->Devices[a.Id] = d;
        return {d};
    }
    inline PDevice TDriverTx::GetDevice(const std::string& id)
    {
        auto it = D->Devices.find(id);
        return it == D->Devices.end() ? nullptr : it->second;
    }
    inline TVoidFuture TDriverTx::RemoveDeviceById(const std::string& id)
    {
        D->Devices.erase(id);
        return {};
    }
}
