#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <stdexcept>
#include "json_utils.h"
#include "utils.h"
namespace WBMQTT
{
    enum TMqttRpcErrorCode
    {
        E_RPC_PARSE_ERROR = -32700,
        E_RPC_REQUEST_TIMEOUT = -32600,
        E_RPC_SERVER_ERROR = -32000
    };
    class TMqttMessage
    {
    public:
        std::string Topic, Payload;
        int Qos;
        bool Retained;
        TMqttMessage(const std::string& t, const std::string& p, int q = 0, bool r = false)
            : Topic(t), Payload(p), Qos(q), Retained(r)
        {}
    };
    class TMqttClient
    {
    public:
        std::function<void(const TMqttMessage&)> OnPublish;
        virtual ~TMqttClient() = default;
        virtual void Publish(const TMqttMessage& m)
        {
            if (OnPublish)
                OnPublish(m);
        }
    };
    typedef std::shared_ptr<TMqttClient> PMqttClient;
    class TMqttRpcServer
    {
    public:
        typedef std::function<Json::Value(const Json::Value&)> TMethodHandler;
        typedef std::function<void(const Json::Value&)> TResultCallback;
        typedef std::function<void(int, const std::string&)> TErrorCallback;
        typedef std::function<void(const Json::Value&, TResultCallback, TErrorCallback)> TAsyncMethodHandler;
        std::map<std::string, TMethodHandler> Methods;
        std::map<std::string, TAsyncMethodHandler> AsyncMethods;
        virtual ~TMqttRpcServer() = default;
        void RegisterMethod(const std::string& s, const std::string& m, TMethodHandler h)
        {
            Methods[s + "/" + m] = h;
        }
        void RegisterAsyncMethod(const std::string& s, const std::string& m, TAsyncMethodHandler h)
        {
            AsyncMethods[s + "/" + m] = h;
        }
        void Start()
        {}
        void Stop()
        {}
    };
    typedef std::shared_ptr<TMqttRpcServer> PMqttRpcServer;
}
