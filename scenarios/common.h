// Helpers shared by scenarios: deterministic UIDs, self-describing messages and their checks.
#pragma once
#include <knp/core/message_bus.h>
#include <knp/core/message_endpoint.h>
#include <knp/core/messaging/messaging.h>
#include <knp/core/uid.h>

#include <array>
#include <string>
#include <vector>

#include "scenario.h"

namespace common
{
namespace kc = knp::core;
namespace km = knp::core::messaging;

inline kc::UID uid(unsigned group, unsigned n)
{
    std::array<uint8_t, 16> a{};
    a[0] = static_cast<uint8_t>(n);
    a[1] = static_cast<uint8_t>(n >> 8);
    a[5] = static_cast<uint8_t>(group);
    a[15] = static_cast<uint8_t>(0x40 + (n * 37 & 0x3f));
    return kc::UID(a);
}

// Message number `id` of type `type` (0 spikes, 1 synaptic impacts): every field is a function of (id, type, sender, size).
inline km::SpikeMessage make_spikes(unsigned sender, uint64_t id, size_t size)
{
    km::SpikeMessage m;
    m.header_.sender_uid_ = uid(1, sender);
    m.header_.send_time_ = id;
    for (size_t i = 0; i < size; ++i) m.neuron_indexes_.push_back(static_cast<uint32_t>(id * 131 + i * 7));
    return m;
}
inline km::SynapticImpactMessage make_impacts(unsigned sender, uint64_t id, size_t size)
{
    km::SynapticImpactMessage m;
    m.header_.sender_uid_ = uid(1, sender);
    m.header_.send_time_ = id;
    m.presynaptic_population_uid_ = uid(2, static_cast<unsigned>(id & 0xff));
    m.postsynaptic_population_uid_ = uid(3, static_cast<unsigned>((id + 1) & 0xff));
    m.is_forcing_ = (id % 3) == 1;
    for (size_t i = 0; i < size; ++i)
        m.impacts_.push_back(km::SynapticImpact{id * 1000 + i, static_cast<float>(id) + 0.5f * static_cast<float>(i),
                                                static_cast<knp::synapse_traits::OutputType>(1 + i % 3), static_cast<uint32_t>(i * 3 + id),
                                                static_cast<uint32_t>(i * 5 + id)});
    return m;
}
inline bool same(const km::SpikeMessage &a, const km::SpikeMessage &b)
{
    return a.header_.sender_uid_.tag == b.header_.sender_uid_.tag && a.header_.send_time_ == b.header_.send_time_ && a.neuron_indexes_ == b.neuron_indexes_;
}
inline bool same(const km::SynapticImpactMessage &a, const km::SynapticImpactMessage &b)
{
    if (!(a.header_.sender_uid_.tag == b.header_.sender_uid_.tag && a.header_.send_time_ == b.header_.send_time_ &&
          a.presynaptic_population_uid_.tag == b.presynaptic_population_uid_.tag &&
          a.postsynaptic_population_uid_.tag == b.postsynaptic_population_uid_.tag && a.is_forcing_ == b.is_forcing_ &&
          a.impacts_.size() == b.impacts_.size()))
        return false;
    for (size_t i = 0; i < a.impacts_.size(); ++i)
    {
        const auto &x = a.impacts_[i], &y = b.impacts_[i];
        if (x.connection_index_ != y.connection_index_ || x.impact_value_ != y.impact_value_ || x.synapse_type_ != y.synapse_type_ ||
            x.presynaptic_neuron_index_ != y.presynaptic_neuron_index_ || x.postsynaptic_neuron_index_ != y.postsynaptic_neuron_index_)
            return false;
    }
    return true;
}
}  // namespace common
