// S03: ROS 2 names
#include "table.hpp"
#include <cpp_utils/ros2_mangling.hpp>
namespace eu = eprosima::utils;

FN(remove_prefix) { r.S(eu::remove_prefix(r.s(0), r.s(1))); }
FN(add_prefix) { r.S(eu::add_prefix(r.s(0), r.s(1))); }
FN(add_suffix) { r.S(eu::add_suffix(r.s(0), r.s(1))); }
FN(get_all_ros_prefixes) { r.L(eu::get_all_ros_prefixes()); }
#define F1(name) FN(name) { r.S(eu::name(r.s(0))); }
F1(get_ros_prefix_if_exists)
F1(remove_ros_prefix_if_exists)
F1(demangle_if_ros_topic)
F1(mangle_if_ros_topic)
F1(add_ros_topic_prefix)
F1(add_ros_service_requester_prefix)
F1(add_ros_service_response_prefix)
F1(demangle_if_ros_type)
F1(mangle_if_ros_type)
F1(demangle_ros_topic_prefix_from_topic)
F1(demangle_ros_service_prefix_from_topic)
F1(demangle_ros_service_request_prefix_from_topic)
F1(demangle_ros_service_reply_prefix_from_topic)
F1(mangle_ros_service_request_prefix_in_topic)
F1(mangle_ros_service_reply_prefix_in_topic)
F1(demangle_service_type_only)
F1(mangle_service_type_only)

int main(int argc, char** argv) { return table::main_(argc, argv); }
