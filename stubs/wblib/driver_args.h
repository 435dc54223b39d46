#pragma once
#include <chrono>
#include <cmath>
#include <string>
#include <map>
#include <any>
#include <unordered_map>
namespace WBMQTT
{
    struct TPublishParameters
    {
        enum TPublishPolicy
        {
            PublishOnlyOnChange,
            PublishAll,
            PublishSomeUnchanged
        };
        TPublishPolicy Policy = PublishOnlyOnChange;
        std::chrono::milliseconds PublishUnchangedInterval{0};
        void Set(int seconds)
        {
            if (seconds < 0) {
                Policy = PublishOnlyOnChange;
            } else if (seconds == 0) {
                Policy = PublishAll;
            } else {
                Policy = PublishSomeUnchanged;
                PublishUnchangedInterval = std::chrono::seconds(seconds);
            }
        }
    };
    class TUserData
    {
        std::any V;

    public:
        TUserData() = default;
        template<class T> void Set(const T& v)
        {
            V = v;
        }
        template<class T> const T& As() const
        {
            return *std::any_cast<T>(&V);
        }
    };
    struct TLocalDeviceArgs
    {
        std::string Id, Title;
        TLocalDeviceArgs& SetId(const std::string& s)
        {
            Id = s;
            return *this;
        }
        TLocalDeviceArgs& SetTitle(const std::string& s)
        {
            Title = s;
            return *this;
        }
        TLocalDeviceArgs& SetIsVirtual(bool)
        {
            return *this;
        }
        TLocalDeviceArgs& SetDoLoadPrevious(bool)
        {
            return *this;
        }
    };
    struct TControlArgs
    {
        std::string Id, Type, Units;
        int Order = 0;
        bool Readonly = false, Hidden = false, Durable = false;
        double Max = NAN, Min = NAN, Precision = 0;
        TUserData UserData;
        std::map<std::string, std::string> Titles;
        TControlArgs& SetId(const std::string& s)
        {
            Id = s;
            return *this;
        }
        TControlArgs& SetOrder(int v)
        {
            Order = v;
            return *this;
        }
        TControlArgs& SetType(const std::string& s)
        {
            Type = s;
            return *this;
        }
        TControlArgs& SetReadonly(bool v)
        {
            Readonly = v;
            return *this;
        }
        template<class T> TControlArgs& SetUserData(const T& v)
        {
            UserData.Set(v);
            return *this;
        }
        TControlArgs& SetUnits(const std::string& s)
        {
            Units = s;
            return *this;
        }
        TControlArgs& SetHidden(bool v)
        {
            Hidden = v;
            return *this;
        }
        TControlArgs& SetMax(double v)
        {
            Max = v;
            return *this;
        }
        TControlArgs& SetMin(double v)
        {
            Min = v;
            return *this;
        }
        TControlArgs& SetPrecision(double v)
        {
            Precision = v;
            return *this;
        }
        TControlArgs& SetTitle(const std::string& t, const std::string& l = "en")
        {
            Titles[l] = t;
            return *this;
        }
        template<class T> TControlArgs& SetEnumValueTitles(const std::string&, const T&)
        {
            return *this;
        }
        TControlArgs& SetDurable()
        {
            Durable = true;
            return *this;
        }
    };
}
