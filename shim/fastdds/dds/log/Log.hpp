// Stand-in for the Fast DDS 3 log (not installed in this sandbox): same interface, entries go to a hook of the
// harness (by default they are counted and dropped).
#pragma once
#include <atomic>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <regex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace eprosima { namespace fastdds { namespace dds {

class LogConsumer;

class Log
{
public:

    enum Kind : uint8_t { Error, Warning, Info, };

    struct Context
    {
        const char* filename;
        int line;
        const char* function;
        const char* category;
    };

    struct Entry
    {
        std::string message;
        Log::Context context;
        Log::Kind kind;
        std::string timestamp;
    };

    static void RegisterConsumer(
            std::unique_ptr<LogConsumer>&& consumer);
    static void ClearConsumers();
    static void SetVerbosity(
            Log::Kind);
    static Log::Kind GetVerbosity();
    static void Flush();
    static void Reset();
    static void ReportFunctions(
            bool) {
    }

    static void ReportFilenames(
            bool) {
    }

    static void SetCategoryFilter(
            const std::regex&) {
    }

    static void SetErrorStringFilter(
            const std::regex&) {
    }

    static void KillThread() {
    }

    static void QueueLog(
            const std::string& message,
            const Log::Context& context,
            Log::Kind kind);
};

class LogConsumer
{
public:

    virtual ~LogConsumer() = default;
    virtual void Consume(
            const Log::Entry&) = 0;

protected:

    void print_timestamp(
            std::ostream& s,
            const Log::Entry& e,
            bool) const { s << e.timestamp << " "; }
    void print_header(
            std::ostream& s,
            const Log::Entry& e,
            bool) const
    {
        s << "[" << (e.context.category ? e.context.category : "") << " " <<
            (e.kind == Log::Kind::Error ? "Error" : e.kind == Log::Kind::Warning ? "Warning" : "Info") << "] ";
    }

    void print_message(
            std::ostream& s,
            const Log::Entry& e,
            bool) const { s << e.message; }
    void print_context(
            std::ostream& s,
            const Log::Entry& e,
            bool) const { if (e.context.function)
                          {
                              s << " -> Function " << e.context.function;
                          } }
    void print_new_line(
            std::ostream& s,
            bool) const { s << std::endl; }
};

inline std::ostream& operator <<(
        std::ostream& os,
        const Log::Kind& kind)
{
    return os << (kind == Log::Kind::Error ? "Error" : kind == Log::Kind::Warning ? "Warning" : "Info");
}

}}}

// hooks for the harness
namespace vshim {
extern std::function<void(const eprosima::fastdds::dds::Log::Entry&)> queue_hook;
extern std::function<void()> flush_hook;
extern std::function<void(std::unique_ptr<eprosima::fastdds::dds::LogConsumer>&&)> register_hook;
extern std::function<void()> clear_hook;
extern std::vector<std::unique_ptr<eprosima::fastdds::dds::LogConsumer>> consumers;
}

#define VSHIM_LOG_(kind_, cat, msg) \
    { \
        if (eprosima::fastdds::dds::Log::GetVerbosity() >= kind_) \
        { \
            std::stringstream vshim_ss_; \
            vshim_ss_ << msg; \
            eprosima::fastdds::dds::Log::QueueLog(vshim_ss_.str(), \
                    eprosima::fastdds::dds::Log::Context{__FILE__, __LINE__, __func__, #cat}, kind_); \
        } \
    }
#define logError(cat, msg) VSHIM_LOG_(eprosima::fastdds::dds::Log::Kind::Error, cat, msg)
#define logWarning(cat, msg) VSHIM_LOG_(eprosima::fastdds::dds::Log::Kind::Warning, cat, msg)
#define logInfo(cat, msg)
#define EPROSIMA_LOG_ERROR(cat, msg) logError(cat, msg)
#define EPROSIMA_LOG_WARNING(cat, msg) logWarning(cat, msg)
#define EPROSIMA_LOG_INFO(cat, msg) logInfo(cat, msg)
