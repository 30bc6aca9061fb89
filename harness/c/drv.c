/* The C interface as c/divans/ffi.h declares it. Loaded by vh, which passes the functions' addresses;
   calls, types and constants come from the header. */
#include "divans/ffi.h"

#define F(name) static __typeof__(&name) p_##name;
F(divans_new_compressor)
F(divans_new_compressor_with_custom_alloc)
F(divans_set_option)
F(divans_encode)
F(divans_encode_flush)
F(divans_free_compressor)
F(divans_new_decompressor)
F(divans_new_decompressor_with_custom_alloc)
F(divans_decode)
F(divans_free_decompressor)

void drv_init(void **t) {
    int i = 0;
#define G(name) p_##name = (__typeof__(&name))t[i++];
    G(divans_new_compressor)
    G(divans_new_compressor_with_custom_alloc)
    G(divans_set_option)
    G(divans_encode)
    G(divans_encode_flush)
    G(divans_free_compressor)
    G(divans_new_decompressor)
    G(divans_new_decompressor_with_custom_alloc)
    G(divans_decode)
    G(divans_free_decompressor)
}
/* the options, in the order vh names them */
static const DivansOptionSelect sel[] = {
    DIVANS_OPTION_QUALITY,
    DIVANS_OPTION_WINDOW_SIZE,
    DIVANS_OPTION_LGBLOCK,
    DIVANS_OPTION_DYNAMIC_CONTEXT_MIXING,
    DIVANS_OPTION_USE_BROTLI_COMMAND_SELECTION,
    DIVANS_OPTION_USE_BROTLI_BITSTREAM,
    DIVANS_OPTION_USE_CONTEXT_MAP,
    DIVANS_OPTION_LITERAL_ADAPTATION_CM_HIGH,
    DIVANS_OPTION_FORCE_STRIDE_VALUE,
    DIVANS_OPTION_STRIDE_DETECTION_QUALITY,
    DIVANS_OPTION_PRIOR_DEPTH,
    DIVANS_OPTION_LITERAL_ADAPTATION_STRIDE_HIGH,
    DIVANS_OPTION_LITERAL_ADAPTATION_CM_LOW,
    DIVANS_OPTION_LITERAL_ADAPTATION_STRIDE_LOW,
    DIVANS_OPTION_BROTLI_LITERAL_BYTE_SCORE,
    DIVANS_OPTION_SPEED_DETECTION_QUALITY,
    DIVANS_OPTION_PRIOR_BITMASK_DETECTION,
    DIVANS_OPTION_Q9_5,
    DIVANS_OPTION_FORCE_LITERAL_CONTEXT_MODE,
    20, /* the optimizer, which the header does not name */
};
/* 0 success, 1 more input, 2 more output, 3 failure, else unknown code */
static int code(DivansResult r) {
    return r == DIVANS_SUCCESS ? 0 : r == DIVANS_NEEDS_MORE_INPUT ? 1 : r == DIVANS_NEEDS_MORE_OUTPUT ? 2 : r == DIVANS_FAILURE ? 3 : 100 + r;
}
void *drv_new_c(const struct CAllocator *a) {
    return a ? p_divans_new_compressor_with_custom_alloc(*a) : p_divans_new_compressor();
}
int drv_set(void *s, int name, uint32_t v) {
    return code(p_divans_set_option(s, sel[name], v));
}
int drv_set_raw(void *s, uint8_t sel, uint32_t v) {
    return code(p_divans_set_option(s, sel, v));
}
int drv_encode(void *s, const uint8_t *i, size_t n, size_t *io, uint8_t *o, size_t m, size_t *oo) {
    return code(p_divans_encode(s, i, n, io, o, m, oo));
}
int drv_flush(void *s, uint8_t *o, size_t m, size_t *oo) {
    return code(p_divans_encode_flush(s, o, m, oo));
}
void drv_free_c(void *s) {
    p_divans_free_compressor(s);
}
void *drv_new_d(const struct CAllocator *a, int skip_crc, int multithread) {
    return a ? p_divans_new_decompressor_with_custom_alloc(*a, skip_crc, multithread) : p_divans_new_decompressor();
}
int drv_decode(void *s, const uint8_t *i, size_t n, size_t *io, uint8_t *o, size_t m, size_t *oo) {
    return code(p_divans_decode(s, i, n, io, o, m, oo));
}
void drv_free_d(void *s) {
    p_divans_free_decompressor(s);
}
