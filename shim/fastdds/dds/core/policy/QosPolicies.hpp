// Stand-in for the Fast DDS 3 header (not installed in this sandbox): same names and values.
#pragma once
#include <bitset>
#include <cstdint>
namespace eprosima { namespace fastdds { namespace dds {
enum QosPolicyId_t : uint32_t
{
    INVALID_QOS_POLICY_ID = 0,
    USERDATA_QOS_POLICY_ID = 1,
    DURABILITY_QOS_POLICY_ID = 2,
    PRESENTATION_QOS_POLICY_ID = 3,
    DEADLINE_QOS_POLICY_ID = 4,
    LATENCYBUDGET_QOS_POLICY_ID = 5,
    OWNERSHIP_QOS_POLICY_ID = 6,
    OWNERSHIPSTRENGTH_QOS_POLICY_ID = 7,
    LIVELINESS_QOS_POLICY_ID = 8,
    TIMEBASEDFILTER_QOS_POLICY_ID = 9,
    PARTITION_QOS_POLICY_ID = 10,
    RELIABILITY_QOS_POLICY_ID = 11,
    DESTINATIONORDER_QOS_POLICY_ID = 12,
    HISTORY_QOS_POLICY_ID = 13,
    RESOURCELIMITS_QOS_POLICY_ID = 14,
    ENTITYFACTORY_QOS_POLICY_ID = 15,
    WRITERDATALIFECYCLE_QOS_POLICY_ID = 16,
    READERDATALIFECYCLE_QOS_POLICY_ID = 17,
    TOPICDATA_QOS_POLICY_ID = 18,
    GROUPDATA_QOS_POLICY_ID = 19,
    TRANSPORTPRIORITY_QOS_POLICY_ID = 20,
    LIFESPAN_QOS_POLICY_ID = 21,
    DURABILITYSERVICE_QOS_POLICY_ID = 22,
    DATAREPRESENTATION_QOS_POLICY_ID = 23,
    TYPECONSISTENCYENFORCEMENT_QOS_POLICY_ID = 24,
    DISABLEPOSITIVEACKS_QOS_POLICY_ID = 25,
    PARTICIPANTRESOURCELIMITS_QOS_POLICY_ID = 26,
    PROPERTYPOLICY_QOS_POLICY_ID = 27,
    PUBLISHMODE_QOS_POLICY_ID = 28,
    READERRESOURCELIMITS_QOS_POLICY_ID = 29,
    RTPSENDPOINT_QOS_POLICY_ID = 30,
    RTPSRELIABLEREADER_QOS_POLICY_ID = 31,
    RTPSRELIABLEWRITER_QOS_POLICY_ID = 32,
    TRANSPORTCONFIG_QOS_POLICY_ID = 33,
    TYPECONSISTENCY_QOS_POLICY_ID = 34,
    WIREPROTOCOLCONFIG_QOS_POLICY_ID = 35,
    WRITERRESOURCELIMITS_QOS_POLICY_ID = 36,
    NEXT_QOS_POLICY_ID = 37
};
using PolicyMask = std::bitset<NEXT_QOS_POLICY_ID>;
}}}
