// Resources of every kind, opened on given bytes or written and then inspected.
#pragma once
#include "fsutil.hpp"
#include <optional>
#include <cmp/io/file.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_output_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
namespace h {
using Bytes = std::vector<uint8_t>;
template <class C> C bytes_as(const Bytes& v) { C c; c.resize(v.size() / sizeof(typename C::value_type)); if (!v.empty()) std::memcpy(c.data(), v.data(), c.size() * sizeof(typename C::value_type)); return c; }
template <class C> Bytes as_bytes(const C& c) { Bytes v(c.size() * sizeof(typename C::value_type)); if (!v.empty()) std::memcpy(v.data(), c.data(), v.size()); return v; }
using VB = std::vector<std::byte>;
constexpr int kOutKinds = 6;
inline const char* out_name(int k) { static const char* n[] = {"file", "opaque_out", "transparent_out", "opaque_io", "transparent_io", "file_rw"}; return n[k]; }
// runs fn(resource) and returns the bytes the resource ended up with
template <class Fn> Bytes with_output(int kind, size_t cap, Fn fn) {
    switch (kind) {
        case 0: { put("sink.bin", {}); { cmp::file f{"sink.bin", cmp::access_mode::write_only, cmp::if_not_there::fail, cap}; fn(f); } return slurp("sink.bin"); }
        case 1: { cmp::opaque_container_output_resource<VB> r{VB{}, cap}; fn(r); r.flush(); return as_bytes(r.grab_content()); }
        case 2: { std::u8string c; { cmp::transparent_container_output_resource<std::u8string> r{c, cap}; fn(r); r.flush(); } return as_bytes(c); }
        case 3: { cmp::opaque_container_io_resource<std::u8string> r{std::u8string{}, cap}; fn(r); r.flush(); return as_bytes(r.grab_content()); }
        case 4: { VB c; { cmp::transparent_container_io_resource<VB> r{c, cap}; fn(r); r.flush(); } return as_bytes(c); }
        default: { put("sink.bin", {}); { cmp::file f{"sink.bin", cmp::access_mode::read_and_write, cmp::if_not_there::fail, cap}; fn(f); } return slurp("sink.bin"); }
    }
}
constexpr int kInKinds = 6;
inline const char* in_name(int k) { static const char* n[] = {"file", "opaque_in", "transparent_in", "opaque_io", "transparent_io", "file_rw"}; return n[k]; }
template <class Fn> void with_input(int kind, size_t cap, const Bytes& v, Fn fn) {
    switch (kind) {
        case 0: { put("source.bin", v); cmp::file f{"source.bin", cmp::access_mode::read_only, cmp::if_not_there::fail, cap}; fn(f); break; }
        case 1: { cmp::opaque_container_input_resource<VB> r{bytes_as<VB>(v), cap}; fn(r); break; }
        case 2: { auto c = bytes_as<std::u8string>(v); cmp::transparent_container_input_resource<std::u8string> r{c, cap}; fn(r); break; }
        case 3: { cmp::opaque_container_io_resource<std::u8string> r{bytes_as<std::u8string>(v), cap}; fn(r); break; }
        case 4: { auto c = bytes_as<VB>(v); cmp::transparent_container_io_resource<VB> r{c, cap}; fn(r); break; }
        default: { put("source.bin", v); cmp::file f{"source.bin", cmp::access_mode::read_and_write, cmp::if_not_there::fail, cap}; fn(f); break; }
    }
}
// A stream object that is now and then replaced by a copy of itself, made by copying or moving; the settings go along.
template <class St> struct Hopping {
    std::optional<St> s; template <class... A> explicit Hopping(A&&... a) { s.emplace(std::forward<A>(a)...); }
    St& operator*() { return *s; }
    void maybe_hop(Rng& r) { if (!r.chance(1, 10)) return; std::optional<St> t; if (r.chance(1, 2)) t.emplace(*s); else t.emplace(std::move(*s)); s.reset(); if (r.chance(1, 2)) s.emplace(*t); else s.emplace(std::move(*t)); ++counter("streams_copied_or_moved"); }
};
inline size_t gen_cap(Rng& r) { static const std::vector<size_t> caps{0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 64, 1024, 4096}; return any_cap(r, caps); }
} // namespace h
