#ifndef KRIPTO_BLOCK_SEED_H
#define KRIPTO_BLOCK_SEED_H

extern const kripto_desc_block *const kripto_block_seed;

#endif
