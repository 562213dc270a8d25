#ifndef KRIPTO_BLOCK_SKIPJACK_H
#define KRIPTO_BLOCK_SKIPJACK_H

extern const kripto_desc_block *const kripto_block_skipjack;

#endif
