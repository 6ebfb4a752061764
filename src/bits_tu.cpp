// The repository's bit primitives behind plain functions; compiled with and without the bit-manipulation instructions.
#include "util.hpp"
#ifndef VF_NAME
#define VF_NAME(x) x##_bmi2
#endif
extern "C" {
uint32_t VF_NAME(vf_select)(uint64_t w, uint32_t i) { return bit_select(w, i); }
uint32_t VF_NAME(vf_rank)(uint64_t w, uint32_t i) { return bit_rank(w, i); }
int32_t VF_NAME(vf_low)(uint64_t w) { return lowbit_pos(w); }
int32_t VF_NAME(vf_high)(uint64_t w) { return highbit_pos(w); }
void VF_NAME(vf_set)(uint64_t *b, uint32_t p) { set_bitmap_bit(b, p); }
void VF_NAME(vf_reset)(uint64_t *b, uint32_t p) { reset_bitmap_bit(b, p); }
uint64_t VF_NAME(vf_get)(const uint64_t *b, uint32_t p) { return get_bitmap_bit(b, p); }
void VF_NAME(vf_right)(uint64_t *b, uint32_t l, uint32_t r, uint32_t s) { shift_bitmap_right(b, l, r, s); }
void VF_NAME(vf_left)(uint64_t *b, uint32_t l, uint32_t r, uint32_t s) { shift_bitmap_left(b, l, r, s); }
uint64_t VF_NAME(vf_be64)(uint64_t v) { return to_big_endian_order(v); }
uint32_t VF_NAME(vf_be32)(uint32_t v) { return to_big_endian_order(v); }
uint16_t VF_NAME(vf_be16)(uint16_t v) { return to_big_endian_order(v); }
}
