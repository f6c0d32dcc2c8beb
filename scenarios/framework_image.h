// What a network holds: identifiers, connections, tags and every field, for comparisons by identifier.
#pragma once
#include "framework_rig.h"

namespace image_of
{
using namespace rig;

struct Entity
{
    kc::UID uid, pre = no_uid(), post = no_uid();
    std::string tag;
    int io = -1;
    size_t type = 0;
    Bits bits;
    bool operator==(const Entity &o) const
    {
        return uid == o.uid && pre == o.pre && post == o.post && tag == o.tag && io == o.io && type == o.type && bits == o.bits;
    }
};
struct Image
{
    std::vector<Entity> pops, projs;
};

template <class T>
void dump_shared(Bits &, const T &) {}
inline void dump_shared(Bits &b, const kc::Projection<st::AdditiveSTDPDeltaSynapse> &p)
{
    std::map<std::string, int> m;
    for (auto &x : const_cast<kc::Projection<st::AdditiveSTDPDeltaSynapse> &>(p).get_shared_parameters().stdp_populations_) m[std::string(x.first)] = static_cast<int>(x.second);
    for (auto &x : m) b.push_back(std::hash<std::string>()(x.first)), b.push_back(static_cast<uint64_t>(x.second));
}
template <class T>
void tags_of(Entity &e, const T &x)
{
    auto &t = x.get_tags();
    if (t.exists("label")) e.tag = t.template get_tag<std::string>("label");
    if (t.exists(kc::tags::io_type_tag)) e.io = static_cast<int>(t.template get_tag<kc::tags::IOType>(kc::tags::io_type_tag));
}
template <class T>
Entity pop_image(const T &p)
{
    Entity e;
    e.uid = p.get_uid();
    tags_of(e, p);
    e.type = kc::AllPopulationsVariant(p).index();
    e.bits = dump_pop(p);
    return e;
}
template <class T>
Entity proj_image(const T &p)
{
    Entity e;
    e.uid = p.get_uid(), e.pre = p.get_presynaptic(), e.post = p.get_postsynaptic();
    tags_of(e, p);
    e.type = kc::AllProjectionsVariant(p).index();
    e.bits = dump_proj(p);
    dump_shared(e.bits, p);
    return e;
}
inline Image image(Net &n)
{
    Image i;
    n.each_pop([&](auto &p) { i.pops.push_back(pop_image(p)); });
    n.each_proj([&](auto &p) { i.projs.push_back(proj_image(p)); });
    return i;
}
inline Image image(const kf::Network &n)
{
    Image i;
    for (auto &p : n.get_populations()) std::visit([&](auto &x) { i.pops.push_back(pop_image(x)); }, p);
    for (auto &p : n.get_projections()) std::visit([&](auto &x) { i.projs.push_back(proj_image(x)); }, p);
    return i;
}
inline void same(const Image &a, const Image &b, const char *cls, const char *an, const char *bn, size_t step)
{
    if (a.pops.size() != b.pops.size()) violation(cls, "step %zu: %s has %zu population(s), %s %zu", step, an, a.pops.size(), bn, b.pops.size());
    if (a.projs.size() != b.projs.size()) violation(cls, "step %zu: %s has %zu projection(s), %s %zu", step, an, a.projs.size(), bn, b.projs.size());
    auto diff = [&](const Entity &x, const Entity &y, const char *what, size_t i)
    {
        if (x == y) return;
        const char *f = !(x.uid == y.uid) ? "identifier" : !(x.pre == y.pre) || !(x.post == y.post) ? "connection" : x.tag != y.tag || x.io != y.io ? "tags" : x.type != y.type ? "type" : "state";
        violation(cls, "step %zu: %s %zu of %s and of %s have a different %s", step, what, i, an, bn, f);
    };
    // By identifier: the order of the entities is not part of the property.
    for (size_t i = 0; i < a.pops.size(); ++i)
    {
        size_t k = 0;
        while (k < b.pops.size() && !(b.pops[k].uid == a.pops[i].uid)) ++k;
        if (k == b.pops.size()) violation(cls, "step %zu: population %zu of %s is missing from %s", step, i, an, bn);
        diff(a.pops[i], b.pops[k], "population", i);
    }
    for (size_t i = 0; i < a.projs.size(); ++i)
    {
        size_t k = 0;
        while (k < b.projs.size() && !(b.projs[k].uid == a.projs[i].uid)) ++k;
        if (k == b.projs.size()) violation(cls, "step %zu: projection %zu of %s is missing from %s", step, i, an, bn);
        diff(a.projs[i], b.projs[k], "projection", i);
    }
}
}  // namespace image_of
