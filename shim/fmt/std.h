#pragma once
#include_next <fmt/std.h>
#include <fmt/format.h>
#include <optional>
#if FMT_VERSION < 100000
template<typename T, typename C>
struct fmt::formatter<std::optional<T>, C> {
  constexpr auto parse(basic_format_parse_context<C>& c) { return c.begin(); }
  template<typename Ctx> auto format(const std::optional<T>& o, Ctx& ctx) const { return o ? fmt::format_to(ctx.out(), "optional({})", *o) : fmt::format_to(ctx.out(), "none"); }
};
#endif
