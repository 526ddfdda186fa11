// every public header of the three packages, in every translation unit
#pragma once
#include "workload.hpp"
#include <cmp/core/compiler.hpp>
#include <cmp/core/operating_system.hpp>
#include <cmp/core/platform.hpp>
#include <cmp/core/test_module.hpp>
#include <cmp/core/type_traits.hpp>
#include <cmp/unicode/concepts.hpp>
#include <cmp/unicode/exceptions.hpp>
#include <cmp/unicode/type_traits.hpp>
#include <cmp/io/exceptions.hpp>
#include <cmp/io/input_resource.hpp>
#include <cmp/io/input_stream.hpp>
#include <cmp/io/io_buffer.hpp>
#include <cmp/io/io_resource.hpp>
#include <cmp/io/output_resource.hpp>
#include <cmp/io/output_stream.hpp>
#include <cmp/io/seekable_input_resource.hpp>
#include <cmp/io/seekable_io_resource.hpp>
#include <cmp/io/seekable_output_resource.hpp>
#include <cmp/io/seekable_transfer_resource.hpp>
#include <cmp/io/transfer_resource.hpp>
#include <cmp/io/uio.hpp>
struct Seen { const void *in, *out, *err, *app; };
Seen other_unit_sees();
void other_unit_prints(int i);
std::u8string other_unit_reads();
w::Acc other_unit_section(int k, uint64_t seed, const w::Env& e);
void other_unit_throws();
const std::u8string& other_unit_line();
// a global object that uses the standard streams while it is initialized and destroyed
struct Global { const char8_t* name; std::u8string line; explicit Global(const char8_t* n) : name(n) { cmp::uout << name << u8" made\n"; cmp::uerr << name << u8" made\n"; cmp::uin.read_line(line); } ~Global() { cmp::uout << name << u8" gone after " << line << u8"\n"; cmp::uerr << name << u8" gone\n"; } };
