#ifndef KRIPTO_BLOCK_SM4_H
#define KRIPTO_BLOCK_SM4_H

extern const kripto_desc_block *const kripto_block_sm4;

#endif
