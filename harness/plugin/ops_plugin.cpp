// The library in one build configuration, with the operations of ops.h, as a shared object of its own.
#include "../ops.h"

struct PluginInput
{
    char32_t const* text;
    size_t textSize;
    char const* utf8;
    size_t utf8Size;
    char32_t const* other;
    size_t otherSize;
    char const* otherUtf8;
    size_t otherUtf8Size;
    unsigned number;
};
extern "C" __attribute__((visibility("default"))) uint64_t pbt_plugin_run(size_t op, PluginInput const* p)
{
    ops::Input i;
    i.text.assign(p->text, p->textSize);
    i.utf8.assign(p->utf8, p->utf8Size);
    i.other.assign(p->other, p->otherSize);
    i.otherUtf8.assign(p->otherUtf8, p->otherUtf8Size);
    i.number = p->number;
    return ops::run(op, i);
}
extern "C" __attribute__((visibility("default"))) size_t pbt_plugin_operations()
{
    return ops::all().size();
}
