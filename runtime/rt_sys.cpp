// std::error_category, as far as constructing and comparing error codes needs it
#include <system_error>
namespace std { inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
namespace { struct cat_t : error_category { const char* name() const noexcept override { return "c"; } string message(int) const override { return string(); } }; cat_t g_sys, g_gen; }
const error_category& system_category() noexcept { return g_sys; }
const error_category& generic_category() noexcept { return g_gen; }
} }
