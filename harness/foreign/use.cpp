// Uses the parser once; compiled for other machines without linking.
#include <json.hpp>

std::string use(const std::string& text)
{
    auto v = json::parse(text);
    auto w = json::parsec(text);
    return v && w ? v->to_string() + w->format() : std::string();
}
