// C++ library objects from models and back.
#pragma once
#include "gen.hpp"
namespace cppgen {
using namespace pbt;
using namespace gen;
typedef std::pair<bool, MRegion> ORegion;        // false: an empty wrapper
inline trax::Region build(const MRegion &m) {
    if (m.type == TRAX_REGION_SPECIAL) return trax::Region::create_special(m.code);
    if (m.type == TRAX_REGION_RECTANGLE) return trax::Region::create_rectangle(m.x, m.y, m.w, m.h);
    if (m.type == TRAX_REGION_POLYGON) {
        trax::Region r = trax::Region::create_polygon((int) m.pts.size());
        for (size_t i = 0; i < m.pts.size(); i++) r.set_polygon_point((int) i, m.pts[i].first, m.pts[i].second);
        return r;
    }
    trax::Region r = trax::Region::create_mask(m.mx, m.my, m.mw, m.mh);
    for (int i = 0; i < m.mh; i++) memcpy(r.write_mask_row(i), m.bits.data() + (size_t) i * m.mw, m.mw);
    return r;
}
inline MRegion look(const trax::Region &r) {
    MRegion m; m.type = r.type();
    switch (m.type) {
    case TRAX_REGION_SPECIAL: m.code = r.get(); break;
    case TRAX_REGION_RECTANGLE: r.get(&m.x, &m.y, &m.w, &m.h); break;
    case TRAX_REGION_POLYGON: for (int i = 0, n = r.get_polygon_count(); i < n; i++) { float x, y; r.get_polygon_point(i, &x, &y); m.pts.push_back({x, y}); } break;
    case TRAX_REGION_MASK: r.get_mask_header(&m.mx, &m.my, &m.mw, &m.mh); for (int i = 0; i < m.mh; i++) { const char *row = r.get_mask_row(i); for (int j = 0; j < m.mw; j++) m.bits += (char) (row[j] != 0); } break;
    default: fail("region of an undocumented type", cat(m.type));
    }
    return m;
}
inline trax::Image build(const MImage &m) {
    switch (m.type) {
    case TRAX_IMAGE_PATH: return trax::Image::create_path(m.s);
    case TRAX_IMAGE_URL: return trax::Image::create_url(m.s);
    case TRAX_IMAGE_BUFFER: return trax::Image::create_buffer((int) m.s.size(), m.s.data());
    default: {
        trax::Image i = trax::Image::create_memory(m.w, m.h, m.format); size_t rb = m.w * pixel_bytes(m.format);
        for (int y = 0; y < m.h; y++) memcpy(i.write_memory_row(y), m.s.data() + y * rb, rb);
        return i; }
    }
}
inline MImage look(const trax::Image &i) {
    MImage m; m.type = i.type(); check(i.empty() == (m.type == TRAX_IMAGE_EMPTY), "empty() differs from the type of an image");
    switch (m.type) {
    case TRAX_IMAGE_PATH: m.s = i.get_path(); break;
    case TRAX_IMAGE_URL: m.s = i.get_url(); break;
    case TRAX_IMAGE_BUFFER: { int n = 0; const char *d = i.get_buffer(&n, &m.format); m.s.assign(d, (size_t) n); break; }
    case TRAX_IMAGE_MEMORY: { i.get_memory_header(&m.w, &m.h, &m.format); size_t rb = m.w * pixel_bytes(m.format); for (int y = 0; y < m.h; y++) m.s.append(i.get_memory_row(y), rb); break; }
    case TRAX_IMAGE_EMPTY: break;
    default: fail("image of an undocumented type", cat(m.type));
    }
    return m;
}
inline void put(trax::Properties &p, const MProps &m) { for (auto &kv : m) p.set(kv.first, kv.second); }
inline MProps look(const trax::Properties &p) {
    MProps m; p.to_map(m);
    check(p.size() == (int) m.size(), "size of a property set differs from its content", cat(p.size(), " != ", m.size()));
    return m;
}
inline trax::ImageList build(const MImages &m) { trax::ImageList l; for (int i = 0; i < 3; i++) if (m[i].type) l.set(build(m[i]), CHANNEL_IDS[i]); return l; }
inline MImages look(const trax::ImageList &l) {
    MImages m(3); int n = 0;
    for (int i = 0; i < 3; i++) {
        m[i] = look(l.get(CHANNEL_IDS[i])); bool has = m[i].type != TRAX_IMAGE_EMPTY; if (!has) m[i] = MImage();
        check(l.has(CHANNEL_IDS[i]) == has, "has() differs from the image of a channel"); n += has;
    }
    check(l.size() == n, "size of an image list differs from its content", cat(l.size(), " != ", n));
    return m;
}

inline trax::ObjectList build(const MObjects &o) { trax::ObjectList l((int) o.size()); for (size_t i = 0; i < o.size(); i++) l.set((int) i, build(o[i].r)); return l; }
inline MObjects look(const trax::ObjectList &l) { MObjects o; for (int i = 0; i < l.size(); i++) o.push_back({look(l.get(i)), look(l.properties(i))}); return o; }
}
