// Dispatches requests to the types registered by the generated units. "t" is the number of the type.
#ifdef TY_FAULT
#define OOM_MAIN
#endif
#include "types.hpp"

std::vector<ty::Handler>& ty::table()
{
    static std::vector<ty::Handler> t;
    return t;
}

int main(int argc, char** argv)
{
    return mj::serve(argc, argv, [](const mj::Node& q) {
        size_t t = static_cast<size_t>(q["t"].i);
        if (t < 1 || t > ty::table().size() || !ty::table()[t - 1]) {
            ty::bad("no such type");
        }
        return ty::table()[t - 1](q);
    });
}
