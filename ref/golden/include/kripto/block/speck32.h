#ifndef KRIPTO_BLOCK_SPECK32_H
#define KRIPTO_BLOCK_SPECK32_H

extern const kripto_desc_block *const kripto_block_speck32;

#endif
