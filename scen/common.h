#pragma once
#include "../sim/sim.h"
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <stdexcept>
#include <string.h>
#include <stdio.h>
#include <mgcore.h>
#include <mg/promises.h>
#include <mg/cresource.h>
#include <mg/cbuffer.h>
using sim::MS; using sim::US; using sim::SEC;
inline uint64_t hmix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return x; }
// harness bookkeeping that other threads must see atomically
#define Q(...) do { sim::Quiet q_; __VA_ARGS__; } while (0)
inline std::string pattern(uint32_t n, uint64_t salt) { std::string s(n, 0); uint64_t x = hmix(salt, 77); for (uint32_t i = 0; i < n; i++) { if (i % 8 == 0) x = hmix(x, i); s[i] = (char)(x >> (8 * (i % 8))); } return s; }
inline std::string exc_what(const std::exception_ptr &e) { try { std::rethrow_exception(e); } catch (const std::exception &x) { std::string s = x.what(); for (auto &c : s) if (c == '\r' || c == '\n') c = ' '; return s; } catch (...) { return "?"; } }
inline int exc_code(const std::exception_ptr &e) { try { std::rethrow_exception(e); } catch (const MGCORE::mgexceptionbase &x) { return x.get_error_number(); } catch (...) { return 1; } }
