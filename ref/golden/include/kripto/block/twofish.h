#ifndef KRIPTO_BLOCK_TWOFISH_H
#define KRIPTO_BLOCK_TWOFISH_H

extern const kripto_desc_block *const kripto_block_twofish;

#endif
