#pragma once
#include <exception>
#include <stdexcept>
#include <string>
#define wb_throw(ExcType, msg) throw ExcType(__FILE__, __LINE__, msg)
namespace WBMQTT
{
    class TBaseException: public std::exception
    {
    public:
        TBaseException(const std::string& file, int line, const std::string& message): Msg(message)
        {
            (void)file;
            (void)line;
        }
        const char* what() const noexcept override
        {
            return Msg.c_str();
        }
        const std::string& GetMessage() const
        {
            return Msg;
        }

    protected:
        std::string Msg;
    };
}
