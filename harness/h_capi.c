/* The C API as a C program sees it: the header has to compile as C, its functions have to link
 * with C linkage, and its macros are evaluated under C's rules. */
#include <libunicode/capi.h>

int c_is_valid(u32_char_t c)
{
    return u32_is_valid_codepoint(c) ? 1 : 0;
}
/* the macro's argument is an expression, and so is its result */
int c_is_valid_expr(u32_char_t c)
{
    return !u32_is_valid_codepoint(c ^ 1) + 2 * (u32_is_valid_codepoint(c) && 1);
}
u32_char_t c_mask(u32_char_t c)
{
    return u32_unused_bit_mask(c);
}
u32_char_t c_mask_expr(u32_char_t c)
{
    return u32_unused_bit_mask(c | 0x80000000u) + 1;
}
unsigned c_capacity(void)
{
    return (unsigned) u32_unused_bit_capacity();
}
int c_get(u32_char_t c, int i)
{
    return u32_unused_bit_get(c, i);
}
u32_char_t c_on(u32_char_t c, int i)
{
    return u32_unused_bit_on(c, i);
}
u32_char_t c_off(u32_char_t c, int i)
{
    return u32_unused_bit_off(c, i);
}
u32_char_t c_cleared(u32_char_t c)
{
    return u32_unused_bit_cleared(c);
}
u32_char_t c_limits(int i)
{
    return i == 0 ? (u32_char_t) U32_CODEPOINT_MIN : i == 1 ? (u32_char_t) U32_CODEPOINT_MAX : (u32_char_t) U32_CODEPOINT_MASK;
}
int c_gc_count32(u32_char_t const* p, size_t n)
{
    return u32_gc_count(p, n);
}
int c_gc_count8(char const* p, size_t n)
{
    return u8_gc_count(p, n);
}
int c_gc_width32(u32_char_t const* p, size_t n, int whole)
{
    return u32_gc_width(p, n, whole ? GC_WIDTH_MODE_MODIFIABLE : GC_WIDTH_MODE_NON_MODIFIABLE);
}
int c_gc_width8(char const* p, size_t n, int whole)
{
    return u8_gc_width(p, n, whole ? GC_WIDTH_MODE_MODIFIABLE : GC_WIDTH_MODE_NON_MODIFIABLE);
}
int c_unbreakable(u32_char_t a, u32_char_t b)
{
    return u32_grapheme_unbreakable(a, b);
}
int c_convert(u32_char_t const* p, size_t n, char* d, size_t dn)
{
    return u32u8_convert(p, n, d, dn);
}
/* Decodes the bytes through the streaming converter; two converters run interleaved so that a
 * state shared between handles would show. Returns the number of codepoints, or -1 if destroying
 * does not clear the handle. */
long c_stream(char const* p, size_t n, u32_char_t* out, char const* other, size_t on)
{
    u8u32_stream_state_t h = u8u32_stream_convert_create();
    u8u32_stream_state_t h2 = u8u32_stream_convert_create();
    long k = 0;
    size_t i;
    for (i = 0; i < n; ++i)
    {
        u32_char_t cp = 0xDEADBEEF;
        int r = u8u32_stream_convert_run(h, p[i], &cp);
        if (r == 1)
            out[k++] = cp;
        else if (r != 0 || cp != 0xDEADBEEF)
            k = -1000000;
        if (on)
            (void) u8u32_stream_convert_run(h2, other[i % on], &cp);
    }
    u8u32_stream_convert_destroy(&h);
    u8u32_stream_convert_destroy(&h2);
    return h || h2 ? -1 : k;
}
