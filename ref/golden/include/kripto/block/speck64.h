#ifndef KRIPTO_BLOCK_SPECK64_H
#define KRIPTO_BLOCK_SPECK64_H

extern const kripto_desc_block *const kripto_block_speck64;

#endif
