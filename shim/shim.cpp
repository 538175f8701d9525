// Compiled without instrumentation: logging of the code under test is not a scheduling point.
#include <fastdds/dds/log/Log.hpp>
using namespace eprosima::fastdds::dds;
namespace vshim {
std::function<void(const Log::Entry&)> queue_hook;
std::function<void()> flush_hook;
std::function<void(std::unique_ptr<LogConsumer>&&)> register_hook;
std::function<void()> clear_hook;
std::vector<std::unique_ptr<LogConsumer>> consumers;
static Log::Kind verbosity = Log::Kind::Error;
}
void Log::RegisterConsumer(
        std::unique_ptr<LogConsumer>&& c)
{
    if (vshim::register_hook)
    {
        vshim::register_hook(std::move(c));
    }
    else
    {
        vshim::consumers.push_back(std::move(c));
    }
}

void Log::ClearConsumers()
{
    if (vshim::clear_hook)
    {
        vshim::clear_hook();
    }
    else
    {
        vshim::consumers.clear();
    }
}

void Log::SetVerbosity(
        Log::Kind k)
{
    vshim::verbosity = k;
}

Log::Kind Log::GetVerbosity()
{
    return vshim::verbosity;
}

void Log::Flush()
{
    if (vshim::flush_hook)
    {
        vshim::flush_hook();
    }
}

void Log::Reset()
{
    ClearConsumers();
    vshim::verbosity = Log::Kind::Error;
}

void Log::QueueLog(
        const std::string& message,
        const Log::Context& context,
        Log::Kind kind)
{
    Log::Entry e{message, context, kind, "T"};
    if (vshim::queue_hook)
    {
        vshim::queue_hook(e);
    }
}
